//@opt merge=1
#include "_spm.hpp"
// The voltage and the surface concentrations enter through their contracts (proved in C12): functions of the state (all of it
// but the cache in element 1); asking for the voltage changes at most that cache.
//@redirect slide::Cell_SPM::V\(\) => callee_V
//@redirect slide::Cell_SPM::getCSurf\(.* => callee_csurf
static double digest(Cell_SPM &c)
{
  double h = c.st[0];
  for (size_t i = 2; i < 32; i++) if (i != 28) h = vc_uf2("digest", h, c.st[i]); // not of the SOC
  return h;
}
extern "C" double callee_V(Cell_SPM *c)
{
  const double v = vc_uf1("V", digest(*c));
  if (v != 0) {
    c->st.V() = v;
    c->Vcell_valid = true;
  }
  return v;
}
static double conc(Cell_SPM &c, bool pos)
{
#ifdef VC_SYMBOLIC
  return vc_uf1(pos ? "cp" : "cn", digest(c));
#else
  return pos ? spm_cp(c, 0) : spm_cn(c, 0);
#endif
}
static bool conc_ok(Cell_SPM &c) { return vc_and(vc_and(0 < conc(c, true), conc(c, true) < c.Cmaxpos), vc_and(0 < conc(c, false), conc(c, false) < c.Cmaxneg)); }
extern "C" bool callee_csurf(Cell_SPM *c, double &p, double &n, bool)
{
  p = conc(*c, true);
  n = conc(*c, false);
  return conc_ok(*c);
}
static int status_of(Cell_SPM &c) // classification of the voltage of the present state
{
#ifdef VC_SYMBOLIC
  const double v = vc_uf1("V", digest(c));
#else
  const double v = spm_in_range(c) ? spm_V(c) : 0.0;
#endif
  return spec_volt_status(v, c.st.I(), 2.7, 2.0, 4.2, 4.3);
}
static void same_except(Cell_SPM &c, const State_SPM &before, size_t k, const char *nm)
{
  for (size_t i = 0; i < c.st.size(); i++)
    if (i != k && i != 1) vc_ensure(nm, c.st[i] == before[i]);
}
static void set_current(bool check)
{
  Spm c;
  spm_any(c);
  c.V();
  const auto before = c.st;
  const double Inew = vc_real_in("Inew", -2, 2);
  const Status s = c.setCurrent(Inew, check);
  if (static_cast<int>(s) >= 3) {
    vc_ensure("rejected-current-leaves-state", c.st.I() == before.I());
    same_except(c, before, 0, "rejected-current-leaves-state");
    vc_ensure("bad-status-only-when-checking", check);
    c.st.I() = Inew;
    vc_ensure("status-is-classification", static_cast<int>(s) == status_of(c));
    vc_cover("rejected");
  } else {
    vc_ensure("accepted-current-is-set", c.I() == Inew);
    same_except(c, before, 0, "only-current-changes");
    vc_ensure("status-is-classification", static_cast<int>(s) == (check ? status_of(c) : 0));
    vc_cover("accepted");
  }
}
extern "C" void contract_setCurrent() { set_current(true); }
extern "C" void contract_setCurrent_nocheck() { set_current(false); }
static void set_soc(bool check)
{
  Spm c;
  spm_any(c);
  const auto before = c.st;
  const double x = vc_real_in("SOCnew", -0.5, 1.5);
  const Status s = c.setSOC(x, check);
  if (x < 0 || x > 1) {
    vc_ensure("illegal-SOC-is-refused", s == Status::SOC_limits_violation);
    same_except(c, before, 99, "refused-SOC-leaves-state");
  } else if (static_cast<int>(s) >= 3) {
    same_except(c, before, 99, "refused-SOC-leaves-state");
    vc_ensure("bad-status-only-when-checking", check);
    vc_ensure("status-is-classification", static_cast<int>(s) == status_of(c));
  } else {
    vc_ensure("accepted-SOC-is-set", c.SOC() == x);
    same_except(c, before, 28, "only-SOC-changes");
    vc_ensure("status-is-classification", static_cast<int>(s) == (check ? status_of(c) : 0));
  }
}
extern "C" void contract_setSOC() { set_soc(true); }
extern "C" void contract_setSOC_nocheck() { set_soc(false); }
static bool close_to_sphere(double a, double e, double R) { return std::abs(a - 3 * e / R) <= 1e-5 * a; }
static bool valid(Cell_SPM &c)
{
  auto &s = c.st;
  const bool range = vc_and(vc_and(vc_and(0 <= s.SOC(), s.SOC() <= 1), vc_and(c.Tmin() <= s.T(), s.T() <= c.Tmax())), conc_ok(c));
  const bool film = vc_and(vc_and(s.delta() > 0, s.LLI() >= 0), vc_and(s.CS() >= 0, s.delta_pl() >= 0));
  const bool res = vc_and(vc_and(s.rDCp() >= 0, s.rDCn() >= 0), s.rDCcc() >= 0);
  const bool pos = vc_and(vc_and(vc_and(s.thickp() > 0, s.thickn() > 0), vc_and(s.ep() > 0, s.en() > 0)), vc_and(vc_and(s.ap() > 0, s.an() > 0), vc_and(s.Dp() > 0, s.Dn() > 0)));
  const bool geo = vc_and(close_to_sphere(s.ap(), s.ep(), c.geo.Rp), close_to_sphere(s.an(), s.en(), c.geo.Rn));
  return vc_and(vc_and(range, film), vc_and(vc_and(res, pos), geo));
}
static void any_numbers(double *x) // like spm_state, but illegal values as well
{
  static const double lo[32] = { -2, -5, 200, -0.1, -1, -0.1, -0.1, -0.1, -0.1, -0.2, -0.2, -0.2, -1e-5, -1e-5, -0.1, -0.1, -0.1, -0.1, -0.1, -0.1, -0.1, -0.1, -0.1, -0.1, -0.1, -0.01, -0.01, -0.01, -0.5, 0, 0, 0 };
  static const double hi[32] = { 2, 5, 400, 1, 10, 2, 2, 1, 1, 2, 2, 2, 1e-4, 1e-4, 1, 0.6, 0.6, 0.6, 0.6, 0.6, 0.6, 0.6, 0.6, 0.6, 0.6, 0.1, 0.1, 0.1, 1.5, 1e6, 1e6, 1e6 };
  for (int i = 0; i < 32; i++) x[i] = vc_real_in("new", lo[i], hi[i]);
}
static void set_states(bool check)
{
  Spm c;
  spm_any(c);
  c.V();
  const auto before = c.st;
  double buf[35];
  any_numbers(buf);
  for (int i = 32; i < 35; i++) buf[i] = vc_real_in("rest", -1, 1);
#ifndef VC_SYMBOLIC
  if (vc_bool("sphere")) buf[9] = 3 * buf[7] / c.geo.Rp, buf[10] = 3 * buf[8] / c.geo.Rn;
#endif
  double copy[35];
  for (int i = 0; i < 35; i++) copy[i] = buf[i];
  std::span<double> s(buf, 35);
  const Status r = c.setStates(s, check, true);
  vc_ensure("span-advanced-by-own-states", s.size() == 3 && s.data() == buf + 32);
  for (size_t i = 0; i < 35; i++) vc_ensure("input-untouched", buf[i] == copy[i]);
  if (static_cast<int>(r) >= 3) {
    for (size_t i = 0; i < 32; i++) if (i != 1) vc_ensure("refused-states-leave-state", c.st[i] == before[i]);
    for (size_t i = 0; i < 32; i++) c.st[i] = copy[i];
    vc_ensure("refused-for-a-reason", static_cast<int>(r) == (valid(c) ? (check ? status_of(c) : 0) : 9));
    vc_cover("refused");
  } else {
    for (size_t i = 0; i < 32; i++) if (i != 1) vc_ensure("accepted-states-are-set", c.st[i] == copy[i]);
    vc_ensure("accepted-only-if-valid", valid(c));
    vc_ensure("status-is-classification", static_cast<int>(r) == (check ? status_of(c) : 0));
    vc_cover("accepted");
  }
}
extern "C" void contract_setStates() { set_states(true); }
extern "C" void contract_setStates_nocheck() { set_states(false); }
extern "C" void contract_getStates()
{
  Spm c;
  spm_any(c);
  std::vector<double> out;
  out.push_back(7);
  c.getStates(out);
  vc_ensure("getStates-appends", out.size() == 33 && out[0] == 7);
  for (size_t i = 0; i < 32; i++) vc_ensure("getStates-is-state", out[i + 1] == c.st[i]);
  vc_ensure("layout", out[1] == c.I() && out[3] == c.T() && out[29] == c.SOC());
  const auto th = c.getThroughputs();
  vc_ensure("layout-throughput", th.time() == out[30] && th.Ah() == out[31] && th.Wh() == out[32]);
  auto v = c.viewStates();
  vc_ensure("viewStates-is-state", v.data() == &c.st[0] && v.size() == 32);
}
extern "C" void contract_setT()
{
  Spm c;
  spm_any(c);
  const auto before = c.st;
  const double T = vc_real_in("Tnew", 200, 400);
  c.setT(T);
  vc_ensure("temperature-is-set", c.T() == T);
  same_except(c, before, 2, "only-the-temperature-changes");
  vc_ensure("stress-has-to-be-recalculated", !c.sparam.s_dai_update && !c.sparam.s_lares_update);
}
extern "C" void contract_setTenv()
{
  Spm c;
  spm_any(c);
  const auto before = c.st;
  const double T = vc_real_in("Tnew", 200, 400), old = c.getTenv();
  bool refused = false;
  try {
    c.setTenv(T);
  } catch (int e) {
    refused = true;
    vc_ensure("illegal-environment-exception", e == 102);
  }
  vc_ensure("illegal-environment-refused", refused == (T < c.Tmin() || T > c.Tmax()));
  vc_ensure("environment", c.getTenv() == (refused ? old : T));
  same_except(c, before, 99, "state-unchanged");
}
static void any_eigenvalue(Cell_SPM &c)
{
  const int k = vc_int("eigenvalue", 0, 4);
  for (int i = 0; i < 5; i++) if (k == i) c.M->Input[3] = i;
}
extern "C" void contract_setC()
{
  Spm c;
  spm_any(c);
  any_eigenvalue(c);
  const auto before = c.st;
  const double p = vc_real_in("fp", -0.5, 1.5), n = vc_real_in("fn", -0.5, 1.5);
  bool refused = false;
  try {
    c.setC(p, n);
  } catch (int e) {
    refused = true;
    vc_ensure("illegal-fraction-exception", e == 104);
  }
  vc_ensure("illegal-fraction-refused", refused == (p < 0 || p > 1 || n < 0 || n > 1));
  if (refused) {
    same_except(c, before, 99, "refused-fraction-leaves-state");
    return;
  }
  const int k = static_cast<int>(c.M->Input[3]);
  for (int i = 0; i < 5; i++) {
    double zp = 0, zn = 0;
    for (int j = 0; j < 5; j++) {
      zp += c.M->Vp[i][j] * (p * c.Cmaxpos * c.M->xch[j] * c.geo.Rp);
      zn += c.M->Vn[i][j] * (n * c.Cmaxneg * c.M->xch[j] * c.geo.Rn);
    }
    vc_ensure_eq("uniform-concentration-positive", c.st.zp(i), i == k ? zp : 0.0);
    vc_ensure_eq("uniform-concentration-negative", c.st.zn(i), i == k ? zn : 0.0);
  }
  vc_ensure("no-current-at-uniform-concentration", c.I() == 0);
  for (size_t i = 2; i < 32; i++) if (i < 15 || i >= 25) vc_ensure("other-states-unchanged", c.st[i] == before[i]);
  vc_ensure("stress-has-to-be-recalculated", !c.sparam.s_dai_update && !c.sparam.s_lares_update);
}
