#include "_module.hpp"
#include "system/Battery.cpp"
#include "power_conversion/Converter.cpp"
// The losses of the converter enter through its contract (C18): a function of the voltage and current at its input.
//@redirect[contract_timestep.*|contract_setModule] slide::Converter::getLosses\(double, double\) => callee_losses
extern "C" double callee_losses(Converter *c, double V, double I) { return vc_uf2("losses", V, I); }
static double losses_of(Converter &c, double V, double I)
{
#ifdef VC_SYMBOLIC
  return vc_uf2("losses", V, I);
#else
  return c.getLosses(V, I);
#endif
}
// An arbitrary module (any implementation of the storage unit interface)
struct SpecMod : Module_s
{
  SpecSU s;
  double stat, vst;
  mutable double order = 0;
  double steps = 0, ndt = 0, ncur = 0;
  SpecMod() : s(0) {}
  double Cap() const override { return s.Cap(); }
  double I() const override { return s.I(); }
  double getRtot() override { return s.getRtot(); }
  size_t getNcells() override { return s.getNcells(); }
  Status setCurrent(double I, bool c = true, bool p = true) override { return s.setCurrent(I, c, p); }
  Status setStates(setStates_t st, bool c = true, bool p = true) override { return s.setStates(st, c, p); }
  void getStates(getStates_t &st) override { s.getStates(st); }
  double getOCV() override { return s.getOCV(); }
  double V() override { return s.V(); }
  Status checkVoltage(double &v, bool p) noexcept override { return s.checkVoltage(v, p); }
  double getVhigh() override { return s.getVhigh(); }
  double getVlow() override { return s.getVlow(); }
  double Vmin() const override { return s.Vmin(); }
  double VMIN() const override { return s.VMIN(); }
  double Vmax() const override { return s.Vmax(); }
  double VMAX() const override { return s.VMAX(); }
  double T() override { return s.T(); }
  double getThotSpot() override { return s.getThotSpot(); }
  bool validStates(bool p) override { return vc_elem_bool("valid", 0); }
  void timeStep_CC(double dt, int n = 1) override { s.timeStep_CC(dt, n); }
  SpecMod *copy() override { return new SpecMod(*this); }
};
template <class F> void with_battery(F f)
{
  Battery b;
  SpecMod m;
  CoolSystem_HVAC hvac;
  hvac.Tcoolant = vc_real_in("Tb", 273, 340);
  const int ns = vc_int("ns", 1, 1000), np = vc_int("np", 1, 1000);
  b.setSeriesandParallel(ns, np);
  b.cells = Deep_ptr<Module>(&m);
  b.cool = Deep_ptr<CoolSystem_HVAC>(&hvac);
  f(b, m, hvac, ns, np);
  vc_stop();
}
extern "C" void contract_scaling()
{
  with_battery([](Battery &b, SpecMod &m, CoolSystem_HVAC &hvac, int ns, int np) {
    StorageUnit &su = b;
    vc_ensure_eq("voltage-of-the-copies-in-series", su.V(), ns * m.V());
    vc_ensure_eq("current-of-the-copies-in-parallel", su.I(), np * m.I());
    vc_ensure_eq("capacity-of-the-copies-in-parallel", su.Cap(), np * m.Cap());
    vc_ensure_eq("power-scales-with-every-copy", su.V() * su.I(), (m.V() * m.I()) * (double)ns * np);
    vc_ensure_eq("ocv", su.getOCV(), ns * m.getOCV());
    vc_ensure_eq("Vmin", su.Vmin(), ns * m.Vmin());
    vc_ensure_eq("VMIN", su.VMIN(), ns * m.VMIN());
    vc_ensure_eq("Vmax", su.Vmax(), ns * m.Vmax());
    vc_ensure_eq("VMAX", su.VMAX(), ns * m.VMAX());
    vc_ensure_eq("resistance-of-series-and-parallel-copies", su.getRtot() * np, ns * m.getRtot());
    vc_ensure_eq("number-of-cells", su.getNcells(), (double)m.getNcells() * ns * np);
    vc_ensure("temperature-of-the-container", su.T() == hvac.Tcoolant);
    vc_ensure_eq("hottest-spot", su.getThotSpot(), std::max(m.getThotSpot(), hvac.Tcoolant));
    vc_ensure("validity-of-the-module", su.validStates(false) == m.validStates(false));
  });
}
extern "C" void contract_status()
{
  with_battery([](Battery &b, SpecMod &m, CoolSystem_HVAC &hvac, int ns, int np) {
    double v = 0, vm = 0;
    const Status s = b.checkVoltage(v, false), sm = m.checkVoltage(vm, false);
    vc_ensure("status-of-the-module", s == sm);
    vc_ensure_eq("voltage-of-all-copies", v, ns * vm);
  });
}
extern "C" void contract_current()
{
  with_battery([](Battery &b, SpecMod &m, CoolSystem_HVAC &hvac, int ns, int np) {
    const double Inew = vc_real_in("Inew", -1e4, 1e4), I0 = m.I();
    const bool check = vc_bool("check");
    const Status s = static_cast<StorageUnit &>(b).setCurrent(Inew, check, false);
    const int want = check ? SpecSU::set_status(0, Inew / np) : 0;
    vc_ensure("status-of-the-module", static_cast<int>(s) == want);
    if (want < 3) vc_ensure_eq("every-parallel-copy-gets-its-share", b.I(), Inew);
    else vc_ensure("refused-current-changes-nothing", m.I() == I0);
  });
}
extern "C" void contract_block()
{
  with_battery([](Battery &b, SpecMod &m, CoolSystem_HVAC &hvac, int ns, int np) {
    const bool k = vc_bool("block");
    StorageUnit &su = b;
    su.setBlockDegAndTherm(k);
    vc_ensure("battery-and-module-are-blocked", b.blockDegAndTherm == k && m.blockDegAndTherm == k);
  });
}
//@redirect[contract_timestep] slide::CoolSystem_HVAC::control\(double, double\) => callee_control
static double ctl_local, ctl_global, ctl_calls, ctl_steps;
static SpecMod *ctl_mod;
extern "C" void callee_control(CoolSystem_HVAC *, double l, double g)
{
  ctl_local = l;
  ctl_global = g;
  ctl_calls += 1;
}
extern "C" void contract_timestep()
{
  with_battery([](Battery &b, SpecMod &m, CoolSystem_HVAC &hvac, int ns, int np) {
    const int n = vc_size("n", 0, 100);
    Children c = attach(static_cast<Module &>(m), n);
    b.convlosses = vc_real_in("loss", 0, 1e6);
    b.convlosses_tot = vc_real_in("loss_tot", 0, 1e9);
    b.blockDegAndTherm = vc_bool("blocked");
    const double l0 = b.convlosses, t0 = b.convlosses_tot, Tb = b.T();
    const double dt = vc_real_in("dt", 0, 1000);
    const int steps = vc_size("steps", 1, 100);
    ctl_calls = 0;
    b.timeStep_CC(dt, steps);
    vc_ensure("every-cell-takes-the-requested-steps-once", m.s.steps == steps);
    vc_ensure_eq("every-cell-advances-by-the-requested-time", m.s.elapsed, steps * dt);
    const double l = losses_of(b.conv, b.V(), b.I()) * (steps * dt);
    vc_ensure_eq("converter-losses-of-the-period", b.convlosses, l0 + l);
    vc_ensure_eq("converter-losses-of-the-lifetime", b.getConvLosses_total(), t0 + l);
    vc_ensure("without-thermal-model-the-temperature-stays", b.T() == Tb);
#ifdef VC_SYMBOLIC
    vc_ensure("cooling-is-controlled-once", ctl_calls == 1);
    vc_ensure_eq("cooling-is-controlled-by-the-hottest-child", ctl_local, n == 0 ? 0 : vc_fold(n, c[0].cT, [&](double a, int i) { return std::max(a, c[i].cT); }));
    vc_ensure_eq("cooling-is-controlled-by-the-hot-spot", ctl_global, b.getThotSpot());
#endif
  });
}
extern "C" void contract_losses_reset()
{
  Battery b;
  b.convlosses = vc_real_in("loss", 0, 1e6);
  b.convlosses_tot = vc_real_in("loss_tot", 0, 1e9);
  const double l0 = b.convlosses, t0 = b.convlosses_tot;
  vc_ensure("losses-since-the-last-reset-are-returned", b.getAndResetConvLosses() == l0);
  vc_ensure("losses-start-again-from-zero", b.getAndResetConvLosses() == 0);
  b.convlosses = vc_real_in("loss2", 0, 1e6);
  b.resetConvLosses();
  vc_ensure("reset-clears-the-period", b.convlosses == 0);
  vc_ensure("lifetime-losses-are-kept", b.getConvLosses_total() == t0);
}
extern "C" void contract_states()
{
  with_battery([](Battery &b, SpecMod &m, CoolSystem_HVAC &hvac, int ns, int np) {
    std::vector<double> s;
    b.getStates(s);
    vc_ensure("states-of-the-cells-then-the-temperature", s.size() == 3 && s[0] == m.s.cI && s[1] == m.s.ver && s[2] == b.T());
    double z[3] = { vc_real_in("z0", -50, 50), vc_real_in("z1", 0, 10), vc_real_in("z2", 273, 340) };
    std::span<double> v(z, 3);
    const double I0 = m.s.cI, v0 = m.s.ver, T0 = b.T();
    const Status st = b.setStates(v, true, false);
    if (vc_ufn2("state_status", 0, z[0]) >= 3) {
      vc_ensure("rejection-is-reported", static_cast<int>(st) >= 3);
      vc_ensure("rejected-states-change-nothing", m.s.cI == I0 && m.s.ver == v0 && b.T() == T0);
    } else {
      vc_ensure("states-are-set", static_cast<int>(st) < 3 && m.s.cI == z[0] && m.s.ver == z[1]);
      vc_ensure("temperature-is-set", b.T() == z[2]);
    }
  });
}
extern "C" void contract_cooling_load()
{
  with_battery([](Battery &b, SpecMod &m, CoolSystem_HVAC &hvac, int ns, int np) {
    const int n = vc_size("n", 0, 100);
    Children c = attach(static_cast<Module &>(m), n);
    CoolSystem mc;
    m.cool = Deep_ptr<CoolSystem>(&mc);
    hvac.coolData.cData.Eoperate = vc_real_in("Eb", 0, 1e6);
    mc.coolData.cData.Eoperate = vc_real_in("Em", 0, 1e6);
    const double Eb = hvac.getEoperation(), Em = mc.getEoperation();
    vc_ensure_eq("energy-of-the-cooling-systems", b.getCoolingLoad(), Eb + Em);
    vc_ensure("energy-counts-once", b.getCoolingLoad() == 0);
  });
}
extern "C" void contract_setModule()
{
  Battery b;
  SpecMod *m = new SpecMod;
  CoolSystem *plain = new CoolSystem_open;
  plain->setControl(vc_int("control", 1, 5));
  const int kind = vc_int("kind", 0, 2); // no cooling system, ordinary, air conditioning
  CoolSystem_HVAC *ac = new CoolSystem_HVAC;
  if (kind == 1) m->cool = Deep_ptr<CoolSystem>(plain);
  if (kind == 2) m->cool = Deep_ptr<CoolSystem>(static_cast<CoolSystem *>(ac));
  SpecMod other;
  const bool owned = vc_bool("owned"), taken = vc_bool("taken");
  if (owned) m->setParent(&other);
  SpecMod first;
  if (taken) b.cells = Deep_ptr<Module>(&first);
  const int ns = vc_int("ns", 1, 1000), np = vc_int("np", 1, 1000);
  b.setSeriesandParallel(ns, np);
  int thrown = 0;
  Deep_ptr<Module> p(m);
  const double Q0 = 2 * losses_of(b.conv, ns * m->Vmax(), np * m->Cap());
  try {
    b.setModule(std::move(p));
  } catch (int e) {
    thrown = e;
  }
  const bool bad = owned || taken || kind != 1;
  vc_ensure("incompatible-modules-are-refused", bad == (thrown == 10) && (bad || thrown == 0));
  if (bad) {
    vc_ensure("refused-module-keeps-its-parent", m->getParent() == (owned ? static_cast<StorageUnit *>(&other) : nullptr));
    vc_ensure("battery-keeps-its-module", taken ? b.getCells() == &first : b.getCells() == nullptr);
  } else {
    vc_ensure("battery-is-the-parent", b.getCells() == m && m->getParent() == &b);
    vc_ensure("air-conditioning-uses-the-control-of-the-module", b.getCoolSystem() != nullptr && b.getCoolSystem()->getControl() == plain->getControl());
    vc_ensure_eq("air-conditioning-is-sized-for-cells-and-converter", b.getCoolSystem()->Q_ac, 7.5 * ((double)m->getNcells() * ns * np) + Q0);
    vc_ensure_eq("converter-is-rated-for-the-battery", b.conv.Pnom, (np * m->Cap()) * (ns * m->Vmax()));
  }
  vc_stop();
}
