#include "_module.hpp"
#include "_status.hpp"
// ---- status predicates over every status value
extern "C" void contract_predicates()
{
  const int k = vc_int("status", -128, 127);
  const Status s = static_cast<Status>(k);
  vc_ensure("success-is-only-Success", isStatusSuccessful(s) == (k == 0));
  vc_ensure("failed-is-not-Success", isStatusFailed(s) == (k != 0));
  vc_ensure("ok-means-no-safety-limit-or-error", isStatusOK(s) == (k < 3));
  vc_ensure("bad-is-not-ok", isStatusBad(s) == (k >= 3));
  vc_ensure("warning-is-ok-but-not-success", isStatusWarning(s) == (k < 3 && k != 0));
  vc_ensure("safe-below-cycler-safety", isStatusSafe(s) == (k < 5));
  vc_ensure("voltage-limit-violations", isStatusVoltageLimitsViolated(s) == (k >= 1 && k <= 6));
  vc_ensure("cc-limit", isCCLimitReached(s) == (k == -5 || k == -4));
  vc_ensure("cv-limit", isCVLimitReached(s) == (k == -6 || k == -4));
  vc_ensure("current-limit", isCurrentLimitReached(s) == (k == -6));
  vc_ensure("voltage-limit", isVoltageLimitReached(s) == (k == -5));
  vc_ensure("operating-limit-is-no-error", isStatusOK(Status::Vmin_violation) && isStatusOK(Status::Vmax_violation));
  vc_ensure("safety-limit-is-an-error", isStatusBad(Status::VMIN_violation) && isStatusBad(Status::VMAX_violation) && isStatusBad(Status::V_not_calculated) && isStatusBad(Status::SOC_limits_violation) && isStatusBad(Status::Invalid_states));
  vc_ensure("cycler-safety-is-unsafe", !isStatusSafe(Status::VMINsafety_violation) && !isStatusSafe(Status::VMAXsafety_violation) && isStatusSafe(Status::VMIN_violation) && isStatusSafe(Status::VMAX_violation));
}
// ---- classification of the voltage of any storage unit
struct ClassSU : SpecSU
{
  bool fails = false;
  double volt = 0;
  ClassSU() : SpecSU(0) {}
  double V() override
  {
    if (fails) throw 1;
    return volt;
  }
};
extern "C" void contract_classification()
{
  ClassSU su;
  su.volt = vc_real_in("V", -1, 6);
  su.fails = vc_bool("fails");
  double v = vc_real_in("v", -10, 10);
  const Status s = free::check_voltage(v, su);
  if (su.fails) vc_ensure("voltage-which-cannot-be-calculated-is-an-error", s == Status::V_not_calculated);
  else {
    vc_ensure_eq("the-voltage-is-returned", v, su.volt);
    vc_ensure("status-is-the-classification", static_cast<int>(s) == spec_volt_status(su.volt, su.cI, su.cVmin, su.cVMIN, su.cVmax, su.cVMAX));
  }
}
extern "C" void contract_soc_range()
{
  const double soc = vc_real_in("soc", -2, 3);
  vc_ensure("soc-between-zero-and-one", free::check_SOC(soc) == (soc >= 0 && soc <= 1));
}
extern "C" void contract_cycler_safety()
{
  SpecSU su(0);
  StorageUnit *p = &su;
  Cycler cyc(p, "c");
  const double v = vc_real_in("v", -1, 6);
  const Status s = free::check_safety(v, cyc);
  const int want = v < su.cVMIN * 0.99 ? 5 : v > su.cVMAX * 1.01 ? 6 : -1;
  vc_ensure("cycler-stops-outside-99-to-101-percent-of-the-safety-limits", static_cast<int>(s) == want);
}
// ---- modules report the worst / extreme child
template <class F> void with_module(F f)
{
  const int n = vc_size("n", 0, 100);
  Module_s m;
  Children c = attach(m, n);
  CoolSystem cool;
  cool.Tcoolant = vc_real_in("T", 273, 340);
  m.cool = Deep_ptr<CoolSystem>(&cool);
  f(m, c, n, cool);
  vc_stop();
}
extern "C" void contract_worst_child()
{
  with_module([](Module_s &m, Children &c, int n, CoolSystem &) {
    m.Vmodule = vc_real_in("Vm", 0, 100);
    m.Vmodule_valid = true;
    double v = 0;
    const Status s = m.checkVoltage(v, false);
    vc_ensure("module-voltage-is-returned", v == m.Vmodule);
    vc_ensure_eq("worst-status-of-the-children", static_cast<int>(s), vc_fold(n, 0, [&](double a, int i) { return std::max(a, (double)vc_ufn2("volt_status", i, SpecSU::Vspec(i, c[i].cI, c[i].ver))); }));
  });
}
extern "C" void contract_highest_cell()
{
  with_module([](Module_s &m, Children &c, int n, CoolSystem &) {
    vc_ensure_eq("highest-cell-voltage", m.getVhigh(), n == 0 ? 0 : vc_fold(n, c[0].cVhi, [&](double a, int i) { return std::max(a, c[i].cVhi); }));
  });
}
extern "C" void contract_lowest_cell()
{
  with_module([](Module_s &m, Children &c, int n, CoolSystem &) {
    vc_ensure_eq("lowest-cell-voltage", m.getVlow(), n == 0 ? 0 : vc_fold(n, c[0].cVlo, [&](double a, int i) { return std::min(a, c[i].cVlo); }));
  });
}
extern "C" void contract_hot_spot()
{
  with_module([](Module_s &m, Children &c, int n, CoolSystem &cool) {
    vc_ensure_eq("hot-spot-is-hottest-child-or-module", m.getThotSpot(), vc_fold(n, cool.Tcoolant, [&](double a, int i) { return std::max(a, c[i].cThot); }));
  });
}
extern "C" void contract_block_degradation()
{
  with_module([](Module_s &m, Children &c, int n, CoolSystem &) {
    const bool b = vc_bool("block");
    StorageUnit &su = m; // as seen by the cycler and by parent modules
    su.setBlockDegAndTherm(b);
    vc_ensure("module-is-blocked", m.blockDegAndTherm == b);
    vc_ensure_all("every-child-is-blocked", n, [&](int i) { return c[i].blockDegAndTherm == b; });
  });
}
// ---- setting a voltage iteratively: success means the unit is at that voltage
//@opt[contract_iterative_voltage] maxsym=2
struct VoltSU : SpecSU
{
  VoltSU() : SpecSU(0) {}
  double V() override { return vc_uf1("V", cI); } // any function of the current
};
extern "C" void contract_iterative_voltage()
{
  VoltSU su;
  spec_accept = true;
  const double Vset = vc_real_in("Vset", 2, 5);
  const Status s = static_cast<StorageUnit &>(su).setVoltage(Vset);
  if (s == Status::Success) vc_ensure_le("success-means-the-voltage-is-reached", std::abs(Vset - su.V()), 1e-6);
  else vc_ensure("otherwise-an-error-is-reported", static_cast<int>(s) >= 3);
}
