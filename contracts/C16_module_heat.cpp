//@opt merge=1
#include "_module.hpp"
// A child described by its contract: asked for its heat balance it records the heat it gets from each of its neighbours, and
// returns some new temperature (or fails); only its parent sets the temperature.
static int g_bad = -1;       // the child whose heat balance fails
static bool g_alone = false; // the children have a heat balance without neighbours
struct HotSU : SpecSU
{
  double T0, cTnew, calls, parent_T, parent_K, parent_A, left_T, left_K, left_A, right_T, right_K, right_A, time; // ghost
  explicit HotSU(int k) : SpecSU(k)
  {
    T0 = cT;
    cTnew = vc_elem("Tnew", k, 280, 320);
    calls = parent_T = parent_K = parent_A = left_T = left_K = left_A = right_T = right_K = right_A = time = 0;
  }
  double thermalModel(int n, double T[], double K[], double A[], double tim) override
  {
    calls += 1;
    if (k == g_bad) throw 9;
    time = tim;
    if (n == 3 && !g_alone) {
      parent_T = T[0];
      parent_K = K[0];
      parent_A = A[0];
      left_T = T[1];
      left_K = K[1];
      left_A = A[1];
      right_T = T[2];
      right_K = K[2];
      right_A = A[2];
    }
    return cTnew;
  }
  HotSU *copy() override { return new HotSU(*this); }
};
// The coolant, described by its contract (C19): heat in, new temperature out; only its module sets the temperature.
struct SpecCool : CoolSystem
{
  double h, Tnew, Etot, Echildren, time, calls;
  double getH() override { return h; }
  double dstate(double E, double C, double t) override
  {
    Etot = E;
    Echildren = C;
    time = t;
    calls += 1;
    return Tnew;
  }
  SpecCool *copy() override { return new SpecCool(*this); }
};
struct HotChildren { HotSU *c; HotSU &operator[](int i) const { return c[i]; } };
inline void make_hot(void *p, int i) { new (p) HotSU(i); }
template <class F> void with_hot_module(F f)
{
  const int n = vc_size("n", 1, 100);
  Module_s m;
  HotChildren c{ static_cast<HotSU *>(vc_family(n, sizeof(HotSU), make_hot)) };
#ifdef VC_SYMBOLIC
  StorageUnit **p = static_cast<StorageUnit **>(vc_ptr_array(c.c, sizeof(HotSU), n));
  StorageUnit ***raw = reinterpret_cast<StorageUnit ***>(&m.SUs);
  raw[0] = p; raw[1] = p + n; raw[2] = p + n;
#else
  for (int i = 0; i < n; i++) m.SUs.push_back(Deep_ptr<StorageUnit>(&c.c[i]));
#endif
  SpecCool cool;
  cool.Tcoolant = vc_real_in("T", 273, 348);
  cool.h = vc_real_in("h", 0, 100);
  cool.Tnew = vc_real_in("new T", 250, 370);
  cool.calls = 0;
  m.cool = Deep_ptr<CoolSystem>(&cool);
  m.therm.A = vc_real_in("A", 0.5, 2);
  m.therm.k_cell2cell = vc_real_in("k", 0, 10);
  m.therm.time = vc_real_in("time since last", 0, 2);
  m.therm.Qcontact = vc_real_in("Qcontact", 0, 2);
  f(m, cool, c, n);
  vc_stop();
}
// heat which flows to (T,A) from (T2,A2) in the given time
static double flow(double k, double A, double T, double A2, double T2, double t) { return k * std::min(A, A2) * (T2 - T) * t; }
extern "C" void contract_module_heat_exchange()
{
  with_hot_module([](Module_s &m, SpecCool &cool, HotChildren &c, int n) {
    const double tim = vc_real_in("tim", 0, 2);
    vc_assume(tim != 0);
    vc_assume(std::abs(m.therm.time - tim) <= 1);
    double T1[1] = { vc_real_in("Tn", 273, 333) }, K1[1] = { vc_real_in("Kn", 0, 2) }, A1[1] = { vc_real_in("An", 0.5, 2) };
    const int nn = vc_int("neighbours", 0, 1);
    const double T0 = cool.T(), h = cool.h, k = m.therm.k_cell2cell, A = m.therm.A, Q = m.therm.Qcontact;
    int e = 0;
    double Tnew = 0;
    try { Tnew = m.thermalModel_coupled(nn, T1, K1, A1, tim); } catch (int x) { e = x; }
    // every unit exchanges heat with the coolant and with the units (or module walls) beside it, all at the old temperatures
    vc_ensure_all("one-heat-balance-per-unit", n, [&](int i) { return c[i].calls == 1 && c[i].time == tim; });
    vc_ensure_all("units-are-cooled-by-the-coolant", n, [&](int i) { return c[i].parent_T == T0 && c[i].parent_K == h && c[i].parent_A == A; });
    vc_ensure_all("units-exchange-heat-with-the-unit-on-the-left", n, [&](int i) { return c[i].left_K == k && c[i].left_T == (i > 0 ? c[i - 1].T0 : T0) && c[i].left_A == (i > 0 ? c[i - 1].cA : A); });
    vc_ensure_all("units-exchange-heat-with-the-unit-on-the-right", n, [&](int i) { return c[i].right_K == k && c[i].right_T == (i + 1 < n ? c[i + 1].T0 : T0) && c[i].right_A == (i + 1 < n ? c[i + 1].cA : A); });
    // the heat which the units lose to the coolant and the walls, and the heat of the contacts, goes into the coolant
    const double children = vc_sum(n, [&](int i) {
      const double Ti = c[i].T0, Am = std::min(A, c[i].cA);
      double q = h * Am * (Ti - T0) * tim;
      if (i == 0) q += k * Am * (Ti - T0) * tim;
      if (i == n - 1) q += k * Am * (Ti - T0) * tim;
      return q;
    }) + Q;
    double total = children;
    if (nn == 1) total += flow(K1[0], A, T0, A1[0], T1[0], tim);
    vc_ensure("one-heat-balance-of-the-coolant", cool.calls == 1 && cool.time == tim);
    vc_ensure_eq("heat-of-the-children-is-evacuated", cool.Echildren, children);
    vc_ensure_eq("heat-absorbed-by-the-coolant", cool.Etot, total);
    vc_ensure("time-is-used-once", m.therm.time == 0);
    vc_ensure_all("temperatures-of-the-units-are-set", n, [&](int i) { return c[i].cT == c[i].cTnew; });
    vc_ensure("temperature-outside-0-to-75-degrees-is-refused", vc_and(cool.Tnew >= 273, cool.Tnew <= 348) ? e == 0 : e == 99);
    if (e == 0) vc_ensure("new-temperature-of-the-coolant", Tnew == cool.Tnew);
    vc_ensure("temperature-of-the-module-is-set-by-its-parent", cool.T() == T0);
  });
}
extern "C" void contract_module_heat_refused()
{
  with_hot_module([](Module_s &m, SpecCool &cool, HotChildren &c, int n) {
    const double tim = vc_real_in("tim", 0, 4), t0 = m.therm.time, T0 = cool.T();
    double T1[1] = { 300 }, K1[1] = { 1 }, A1[1] = { 1 };
    g_bad = vc_int("failing unit", 0, 99);
    const bool sync = std::abs(t0 - tim) <= 1;
    vc_assume(g_bad < n);
    int e = 0;
    double Tnew = 0;
    try { Tnew = m.thermalModel_coupled(0, T1, K1, A1, tim); } catch (int x) { e = x; }
    vc_ensure("clock-out-of-step-is-refused", sync || e == 98);
    if (sync) {
      vc_ensure("failure-of-a-unit-is-passed-on", e == (tim != 0 ? 9 : 0));
      if (tim == 0) vc_ensure("no-time-no-change", Tnew == T0);
    }
    vc_ensure_all("no-temperature-is-set", n, [&](int i) { return c[i].cT == c[i].T0; });
    vc_ensure("no-heat-is-moved", cool.T() == T0 && cool.calls == 0);
    g_bad = -1;
  });
}
extern "C" void contract_module_of_lonely_cells()
{
  with_hot_module([](Module_s &m, SpecCool &cool, HotChildren &c, int n) {
    const double T0 = cool.T();
    g_alone = true;
    const double T = m.thermalModel_cell();
    g_alone = false;
    vc_ensure("uncoupled-module-keeps-its-temperature", T == T0 && cool.T() == T0);
    vc_ensure_all("one-heat-balance-per-unit", n, [&](int i) { return c[i].calls == 1; });
    vc_ensure_all("temperatures-of-the-units-are-set", n, [&](int i) { return c[i].cT == c[i].cTnew; });
  });
}
extern "C" void contract_module_heat_entry()
{
  with_hot_module([](Module_s &m, SpecCool &cool, HotChildren &c, int n) {
    double T1[1] = { 300 }, K1[1] = { 1 }, A1[1] = { 1 };
    const double T0 = cool.T();
    double T = 0;
    int e = 0;
    try { T = m.thermalModel(vc_int("neighbours", 0, 1), T1, K1, A1, vc_real_in("tim", 0, 2)); } catch (int x) { e = x; }
    vc_ensure("heat-of-the-contacts-is-used-once", m.therm.time == 0 && m.therm.Qcontact == 0);
    if (settings::T_MODEL == 0) {
      vc_ensure("isothermal-modules-keep-their-temperature", e == 0 && T == T0 && cool.T() == T0);
      vc_ensure_all("isothermal-units-keep-their-temperature", n, [&](int i) { return c[i].cT == c[i].T0 && c[i].calls == 0; });
    }
  });
}
