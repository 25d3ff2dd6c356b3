#include "_spm.hpp"
// Contracts of the callees (proved in C12, C15, C16): diffusion constants, molar flux, voltage and heat are functions of the
// state, the rates of degradation are arbitrary numbers.
//@redirect slide::Cell_SPM::calcDiffConstant\(\) => callee_diff
//@redirect slide::Cell_SPM::calcMolarFlux\(\) => callee_flux
//@redirect slide::Cell_SPM::V\(\) => callee_V
//@redirect slide::Cell_SPM::dState_degradation\(.* => callee_degradation
//@redirect slide::Cell_SPM::dState_thermal\(.* => callee_thermal
//@redirect slide::Cell_SPM::thermalModel\(.* => callee_thermalModel
//@redirect slide::Cell_SPM::updateDaiStress\(\) => callee_dai
//@redirect slide::Cell_SPM::updateLaresgoitiStress\(.* => callee_lares
static double Dspec(Cell_SPM &c, const State_SPM &s0, bool pos)
{
  auto s = s0;
#ifdef VC_SYMBOLIC
  return vc_uf2(pos ? "Dpt" : "Dnt", pos ? s.Dp() : s.Dn(), s.T());
#else
  std::swap(c.st, s);
  const double r = spm_arrhenius(c, pos ? c.st.Dp() : c.st.Dn(), pos ? c.Dp_T : c.Dn_T);
  std::swap(c.st, s);
  return r;
#endif
}
static double jspec(Cell_SPM &c, const State_SPM &s0, bool pos)
{
  auto s = s0;
#ifdef VC_SYMBOLIC
  return vc_uf3(pos ? "jp" : "jn", s[0], pos ? s.thickp() : s.thickn(), pos ? s.ap() : s.an());
#else
  std::swap(c.st, s);
  const double r = pos ? spm_jp(c) : spm_jn(c);
  std::swap(c.st, s);
  return r;
#endif
}
extern "C" std::array<double, 2> callee_diff(Cell_SPM *c) { return { Dspec(*c, c->st, true), Dspec(*c, c->st, false) }; }
extern "C" std::array<double, 3> callee_flux(Cell_SPM *c) { return { c->st.I() / c->geo.elec_surf, jspec(*c, c->st, true), jspec(*c, c->st, false) }; }
static bool g_V; // does the contract look at the energy?
static double digest(const State_SPM &s) // of everything that changes within the steps and the voltage depends on
{
  return vc_uf4("digest", vc_uf4("digest1", s[0], s[15], s[16], s[17]), vc_uf4("digest2", s[18], s[19], s[20], s[21]), vc_uf3("digest3", s[22], s[23], s[24]), 0);
}
static int g_seen_V;       // 1: remember the state the voltage was calculated for
static State_SPM g_seen;
extern "C" double callee_V(Cell_SPM *c)
{
  if (g_seen_V && !c->Vcell_valid) {
    for (size_t i = 2; i < 29; i++) g_seen[i] = c->st[i];
    c->Vcell_valid = true;
  }
  if (!g_V) return 0;
  if (c->Vcell_valid) return c->st[1]; // C12: a voltage that is marked as valid is not calculated again
  const double v = vc_uf1("V", digest(c->st));
  if (v != 0) {
    c->st[1] = v;
    c->Vcell_valid = true;
  }
  return v;
}
static double Vspec(Cell_SPM &c, const State_SPM &s)
{
#ifdef VC_SYMBOLIC
  return vc_uf1("V", digest(s));
#else
  const auto keep = c.st;
  c.st = s;
  const double v = spm_in_range(c) ? spm_V(c) : 0.0;
  c.st = keep;
  return v;
#endif
}
// What the (contracts of the) thermal and ageing models return in this step
static State_SPM g_rate;                     // rates of degradation
static double g_heat, g_Tnew;                // heat generation, new temperature
static double g_heat_to_remove, g_heat_time; // accumulated heat and time the thermal model is called with
static int g_thermal_calls, g_fail;
static double g_new_dai_p, g_new_dai_n, g_new_lares, g_old_dai_p, g_old_dai_n, g_old_lares, g_dt;
extern "C" void callee_degradation(Cell_SPM *c, bool, State_SPM &d)
{
  auto &p = c->sparam;
  vc_ensure_eq("stress-interval-is-the-whole-period", p.s_dt, g_dt);
  if (p.s_dai) vc_ensure("Dai-stress-of-this-and-previous-step", p.s_dai_update && p.s_dai_p == g_new_dai_p && p.s_dai_n == g_new_dai_n && p.s_dai_p_prev == g_old_dai_p && p.s_dai_n_prev == g_old_dai_n);
  if (p.s_lares) vc_ensure("Laresgoiti-stress-of-this-and-previous-step", p.s_lares_update && p.s_lares_n == g_new_lares && p.s_lares_n_prev == g_old_lares);
  if (g_fail == 3) throw 106;
  for (size_t i = 3; i < 28; i++) if (i < 15 || i >= 20) d[i] += g_rate[i];
}
extern "C" void callee_thermal(Cell_SPM *c, bool, double &q)
{
  if (g_fail == 1) throw 101;
  q = g_heat;
}
extern "C" double callee_thermalModel(Cell_SPM *c, int n, double *Tn, double *Kn, double *An, double tim)
{
  g_thermal_calls++;
  vc_ensure("stand-alone-cell-is-cooled-by-its-environment", n == 1 && Tn[0] == c->T_env && Kn[0] == c->Qch && An[0] == c->geo.Acell && tim == c->Therm_time);
  g_heat_to_remove = c->Therm_Qgen;
  g_heat_time = c->Therm_time;
  c->Therm_Qgentot += c->Therm_Qgen;
  c->Therm_Qgen = 0;
  c->Therm_time = 0;
  if (g_fail == 2) throw 9;
  return g_Tnew;
}
extern "C" void callee_dai(Cell_SPM *c) { c->sparam.s_dai_p = g_new_dai_p; c->sparam.s_dai_n = g_new_dai_n; c->sparam.s_dai_update = true; }
extern "C" void callee_lares(Cell_SPM *c, bool) { c->sparam.s_lares_n = g_new_lares; c->sparam.s_lares_update = true; }
template <class F> static void expect(Cell_SPM &c, const State_SPM &s0, double dt, int n, F rate)
{
  auto z = [&](size_t i, int k) {
    const bool p = i < 5;
    const double D = Dspec(c, s0, p), j = jspec(c, s0, p), A = p ? c.M->Ap[i] : c.M->An[i - 5], B = p ? c.M->Bp[i] : c.M->Bn[i - 5];
    return vc_fold(k, s0[15 + i], [&](double a, int) { return a + dt * (D * A * a + B * j); });
  };
  const double I = s0[0];
  auto zafter = [&](size_t i, int k) {
    const bool p = i < 5;
    const double D = Dspec(c, s0, p), j = jspec(c, s0, p), A = p ? c.M->Ap[i] : c.M->An[i - 5], B = p ? c.M->Bp[i] : c.M->Bn[i - 5], a = z(i, k);
    return a + dt * (D * A * a + B * j);
  };
  if (!g_V)
    for (size_t i = 0; i < 10; i++) vc_ensure_eq("diffusion-is-forward-Euler", c.st[15 + i], z(i, n) + rate(15 + i));
  vc_ensure_eq("charge-conservation", (s0[28] - c.st.SOC()) * c.capNom, I * dt * n / 3600);
  vc_ensure_eq("time-accumulates", c.st.time(), s0[29] + n * dt);
  vc_ensure_eq("Ah-throughput-is-charge-moved", c.st.Ah(), s0[30] + n * (std::abs(I) * dt / 3600));
  if (g_V) vc_ensure_eq("Wh-throughput-is-sum-of-energy-steps", c.st.Wh(), s0[31] + vc_sum(n, [&](int k) {
    auto s = s0;
    for (size_t i = 0; i < 10; i++) s[15 + i] = zafter(i, k);
    return std::abs(I * dt / 3600 * Vspec(c, s));
  }));
  vc_ensure("current-kept", c.st[0] == I);
}
// a voltage that is marked as valid was calculated for the present state
static bool voltage_is_not_stale(Cell_SPM &c)
{
#ifdef VC_SYMBOLIC
  bool ok = true;
  for (size_t i = 2; i < 29; i++) ok &= c.st[i] == g_seen[i];
  return !c.Vcell_valid | ok;
#else
  const double v = c.V(), ok = c.st[1];
  c.Vcell_valid = false;
  const double w = c.V();
  return std::abs(v - w) <= 1e-9 && v == (w == 0 ? v : ok);
#endif
}
static void any_step(Cell_SPM &c)
{
  spm_any(c);
  c.geo.Acell = vc_real_in("Acell", 0.5, 2);
}
static void step_without_ageing()
{
  Spm c;
  any_step(c);
  c.setBlockDegAndTherm(true);
  if (g_V) {
    c.st[1] = Vspec(c, c.st);
    c.Vcell_valid = c.st[1] != 0;
  }
  const auto s0 = c.st;
  const double dt = vc_real_in("dt", 0, 1);
  const int n = vc_size("nstep", 0, 1000000);
  const double q = c.Therm_Qgen, t = c.Therm_time, q2 = c.Therm_Qgentot;
  c.timeStep_CC(dt, n);
  expect(c, s0, dt, n, [](size_t) { return 0.0; });
  for (size_t i = 2; i < 15; i++) vc_ensure("no-ageing-and-constant-temperature-when-blocked", c.st[i] == s0[i]);
  for (size_t i = 25; i < 28; i++) vc_ensure("no-ageing-and-constant-temperature-when-blocked", c.st[i] == s0[i]);
  vc_ensure("no-heat-when-blocked", c.Therm_Qgen == q && c.Therm_time == t && c.Therm_Qgentot == q2);
}
extern "C" void contract_step_without_ageing() { g_V = false; g_seen_V = 0; step_without_ageing(); }
extern "C" void contract_voltage_is_not_stale()
{
  Spm c;
  any_step(c);
  g_V = false;
  g_seen_V = 1;
  c.setBlockDegAndTherm(true);
  c.V();
  auto fresh = [&] { return voltage_is_not_stale(c); };
#ifdef VC_SYMBOLIC
  vc_invariant(fresh);
#endif
  c.timeStep_CC(vc_real_in("dt", 0, 1), vc_size("nstep", 0, 1000000));
  vc_ensure("a-valid-voltage-is-the-voltage-of-the-state", voltage_is_not_stale(c));
}
extern "C" void contract_step_energy() { g_V = true; g_seen_V = 0; step_without_ageing(); }
extern "C" void contract_step_with_ageing()
{
  Spm c, module;
  any_step(c);
  g_V = false;
  g_seen_V = 1;
  const bool alone = vc_bool("stand-alone cell");
  c.parent = alone ? nullptr : &module;
  auto &p = c.sparam;
  p.s_dai = vc_bool("Dai's stress needed");
  p.s_lares = vc_bool("Laresgoiti's stress needed");
  p.s_dai_p = g_old_dai_p = vc_real_in("s_dai_p", -1, 1);
  p.s_dai_n = g_old_dai_n = vc_real_in("s_dai_n", -1, 1);
  p.s_lares_n = g_old_lares = vc_real_in("s_lares_n", -1, 1);
  g_new_dai_p = vc_real_in("new s_dai_p", -1, 1);
  g_new_dai_n = vc_real_in("new s_dai_n", -1, 1);
  g_new_lares = vc_real_in("new s_lares_n", -1, 1);
  const double dt = vc_real_in("dt", 0, 1);
  const int n = vc_size("nstep", 0, 1000000);
  g_dt = n * dt;
  g_fail = vc_int("what fails", 0, 3);
  g_thermal_calls = 0;
  for (size_t i = 0; i < 32; i++) g_rate[i] = vc_real_in("rate", -1, 1);
  g_heat = vc_real_in("heat", -1, 1);
  g_Tnew = vc_real_in("Tnew", 273, 333);
  const auto s0 = c.st;
  const double q = c.Therm_Qgen, t = c.Therm_time, q2 = c.Therm_Qgentot;
#ifndef VC_SYMBOLIC // natively the models themselves are used
  g_fail = 0;
  {
    c.deg_id.SEI_id.add_model(1);
    c.deg_id.LAM_id.add_model(4);
    if (p.s_dai) c.deg_id.LAM_id.add_model(1);
    if (p.s_lares) c.deg_id.CS_id.add_model(1);
    c.sei_p.sei1k = 1e-9;
    c.sei_p.sei1k_T = 0;
    c.lam_p.lam4p = c.lam_p.lam4n = 0.01;
    c.lam_p.lam1p = c.lam_p.lam1n = 0.01;
    c.csparam.CS1alpha = 0.01;
    vc_assume(g_dt > 0 && n < 1000);
    for (size_t i = 0; i < 32; i++) g_rate[i] = 0;
    Cell_SPM d = c;
    d.setBlockDegAndTherm(true);
    d.timeStep_CC(dt, n);
    try { d.dState_thermal(false, g_heat); } catch (int) { g_fail = 1; }
    d.Therm_Qgen += g_heat * dt * n;
    d.Therm_time += dt * n;
    g_Tnew = d.T();
    if (p.s_dai) d.updateDaiStress();
    if (p.s_lares && !g_fail) d.updateLaresgoitiStress(false);
    d.sparam.s_dt = g_dt;
    d.sparam.s_dai_p_prev = g_old_dai_p;
    d.sparam.s_dai_n_prev = g_old_dai_n;
    d.sparam.s_lares_n_prev = g_old_lares;
    if (!g_fail) try { d.dState_degradation(false, g_rate); } catch (int) { g_fail = 3; }
    vc_assume(g_fail == 0);
  }
#endif
  int e = 0;
  try { c.timeStep_CC(dt, n); } catch (int x) { e = x; }
  if (e != 0) {
    vc_ensure("exceptions-are-passed-on", (g_fail == 1 && e == 101) || (g_fail == 2 && alone && e == 9) || (g_fail == 3 && e == 106));
    return;
  }
  vc_ensure("failures-are-not-hidden", g_fail == 0 || (g_fail == 2 && !alone));
  expect(c, s0, dt, n, [&](size_t i) { return i < 20 ? 0.0 : g_rate[i] * (dt * n); });
  for (size_t i = 3; i < 15; i++) vc_ensure_eq("ageing-is-rate-times-elapsed-time", c.st[i], s0[i] + g_rate[i] * (dt * n));
  for (size_t i = 25; i < 28; i++) vc_ensure_eq("ageing-is-rate-times-elapsed-time", c.st[i], s0[i] + g_rate[i] * (dt * n));
#ifndef VC_SYMBOLIC
  for (size_t i = 3; i < 15; i++)
    for (auto o : { "stress-interval-is-the-whole-period", "Dai-stress-of-this-and-previous-step", "Laresgoiti-stress-of-this-and-previous-step" }) vc_ensure_eq(o, c.st[i], s0[i] + g_rate[i] * (dt * n));
#endif
  vc_ensure("a-valid-voltage-is-the-voltage-of-the-state", voltage_is_not_stale(c));
  vc_ensure("temperature-by-thermal-model-or-parent", c.T() == (alone ? g_Tnew : s0[2]));
  if (alone) {
    vc_ensure("heat-handed-over-once", c.Therm_Qgen == 0 && c.Therm_time == 0);
    vc_ensure_eq("heat-of-the-period", c.Therm_Qgentot, q2 + (q + g_heat * dt * n));
#ifdef VC_SYMBOLIC
    vc_ensure_eq("heat-of-the-period", g_heat_to_remove, q + g_heat * dt * n);
    vc_ensure_eq("time-of-the-period", g_heat_time, t + dt * n);
    vc_ensure("one-heat-balance-per-period", g_thermal_calls == 1);
#endif
  } else {
    vc_ensure_eq("heat-accumulates-for-the-parent", c.Therm_Qgen, q + g_heat * dt * n);
    vc_ensure_eq("time-accumulates-for-the-parent", c.Therm_time, t + dt * n);
    vc_ensure("parent-does-the-heat-balance", c.Therm_Qgentot == q2);
  }
}
extern "C" void contract_negative_step()
{
  Spm c;
  any_step(c);
  const auto s0 = c.st;
  const double q = c.Therm_Qgen, t = c.Therm_time, dt = vc_real_in("dt", -2, 2);
  vc_assume(dt < 0);
  int e = 0;
  try { c.timeStep_CC(dt, vc_size("nstep", 0, 1000000)); } catch (int x) { e = x; }
  vc_ensure("negative-step-refused", e == 10);
  for (size_t i = 0; i < 32; i++) vc_ensure("refused-step-changes-nothing", c.st[i] == s0[i]);
  vc_ensure("refused-step-changes-nothing", c.Therm_Qgen == q && c.Therm_time == t);
}
