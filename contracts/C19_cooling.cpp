#include "_cool.hpp"
extern "C" void contract_temperature_limits()
{
  CoolSystem c;
  any_cool(c, 1);
  const CoolOld o = snapshot(c);
  const double T = vc_real_in("Tnew", 200, 400);
  int thrown = 0;
  try {
    c.setT(T);
  } catch (int e) {
    thrown = e;
  }
  vc_ensure("temperature-outside-0-to-75-degrees-is-refused", (thrown == 99) == (T < 273 || T > 348));
  vc_ensure("temperature-is-set-or-left", c.T() == (thrown ? o.T : T));
  vc_ensure("only-the-documented-exception", thrown == 0 || thrown == 99);
  vc_ensure("flow-rate-unchanged", c.getFlr() == o.flr);
}
extern "C" void contract_heat_exchange()
{
  CoolSystem c;
  any_cool(c, vc_int("control", 0, 7));
  const CoolOld o = snapshot(c);
  const double Q = vc_real_in("Q", -1e5, 1e5), Qc = vc_real_in("Qchildren", -1e5, 1e5), t = vc_real_in("t", 0, 1e4);
  const double Tnew = c.dstate(Q, Qc, t);
  vc_ensure_eq("heat-goes-into-the-coolant", Tnew, o.T + Q / (c.fluid_rho * c.fluid_cp * c.fluid_V));
  vc_ensure("temperature-is-not-set-yet", c.T() == o.T && c.getFlr() == o.flr);
  const auto &d = c.coolData.cData;
  const double E = spec_fan(c) * t;
  vc_ensure_eq("absorbed-heat-accumulates", d.Qabs_life, o.d.Qabs_life + Q);
  vc_ensure_eq("heat-of-the-children-accumulates", d.Qevac_life, o.d.Qevac_life + Qc);
  vc_ensure_eq("heat-of-the-children-in-this-period", d.Qevac, o.d.Qevac + Qc);
  vc_ensure_eq("lifetime-accumulates", d.t_life, o.d.t_life + t);
  vc_ensure_eq("time-of-this-period", d.time, o.d.time + t);
  vc_ensure_eq("simulation-time", d.time_life, o.d.time_life + t);
  vc_ensure_eq("fan-energy-accumulates", d.E, o.d.E + E);
  vc_ensure_eq("operating-energy-accumulates", d.Eoperate, o.d.Eoperate + E);
  vc_ensure_eq("getters-report-the-totals-heat", c.getHeatabsorbed(), d.Qabs_life);
  vc_ensure_eq("getters-report-the-totals-evacuated", c.getHeatEvac(), d.Qevac_life);
  vc_ensure_eq("getters-report-the-totals-time", c.getTotalTime(), d.t_life);
  vc_ensure_eq("getters-report-the-totals-energy", c.getEoperation(), d.Eoperate);
  c.reset_Eoperation();
  vc_ensure("reset-clears-only-the-operating-energy", c.getEoperation() == 0 && d.t_life == o.d.t_life + t);
}
static double spec_prop(CoolSystem &c, double Thot)
{
  const double err = std::max(Thot - c.control_prop_T, 0.0);
  return c.control_prop_gain * err > 0.2 ? c.control_onoff_flr * (c.control_prop_gain * err) : 0;
}
static double spec_onoff(CoolSystem &c, double Thot, double old)
{
  return Thot <= c.control_onoff_Toff ? 0 : Thot >= c.control_onoff_Ton ? c.control_onoff_flr : old;
}
static double spec_flow(CoolSystem &c, double loc, double glob, double old)
{
  switch (c.control_strategy) {
  case 2: return spec_onoff(c, loc, old);
  case 3: return spec_onoff(c, glob, old);
  case 4: return spec_prop(c, loc);
  case 5: return spec_prop(c, glob);
  default: return old;
  }
}
extern "C" void contract_control()
{
  CoolSystem c;
  any_cool(c, vc_int("control", -1, 8));
  const CoolOld o = snapshot(c);
  const double loc = vc_real_in("Tlocal", 270, 340), glob = vc_real_in("Tglobal", 270, 340);
  c.control(loc, glob);
  vc_ensure_eq("flow-rate-follows-the-control-strategy", c.getFlr(), spec_flow(c, loc, glob, o.flr));
  vc_ensure("control-leaves-temperature-and-energy", c.T() == o.T && c.coolData.cData.E == o.d.E && c.coolData.cData.Eoperate == o.d.Eoperate);
}
extern "C" void contract_select()
{
  CoolSystem c;
  any_cool(c, 1);
  const int s = vc_int("control", -1, 8);
  c.setControl(s);
  vc_ensure("strategy-is-selected", c.getControl() == s);
}
extern "C" void contract_convection()
{
  CoolSystem c;
  any_cool(c, 1);
  const double h = c.getH();
  const double v = c.flowrate / c.Across;
  if (c.flowrate == 0) vc_ensure("no-flow-no-convection", h == 0);
  else vc_ensure_eq("convection-from-the-flow-speed", h, 12.12 - 1.16 * v + 11.6 * std::sqrt(v));
}
extern "C" void contract_construct()
{
  const int n = vc_int("n", 1, 100000), s = vc_int("control", 0, 8);
  CoolSystem c(n, s);
  vc_ensure("cools-the-requested-number-of-cells", static_cast<int>(c.Ncells) == n && c.getControl() == s);
  vc_ensure_eq("starts-at-the-environment-temperature", c.T(), settings::T_ENV);
  vc_ensure_eq("flow-rate-scales-with-cells", c.getFlr(), 0.0005 * n);
  vc_ensure_eq("full-flow-when-on", c.control_onoff_flr, 0.0005 * n);
  vc_ensure_eq("cross-section-scales-with-cells", c.Across, 0.000025 * n);
  vc_ensure_eq("thermal-mass-scales-with-cells", c.fluid_V, 1.0 * n);
  vc_ensure("off-threshold-below-on-threshold", c.control_onoff_Toff < c.control_onoff_Ton && c.control_prop_T < c.control_onoff_Ton);
  vc_ensure_le("proportional-control-reaches-full-flow-at-the-on-temperature", std::abs(c.control_prop_gain * (c.control_onoff_Ton - c.control_prop_T) - 1), 1e-9);
  vc_ensure("no-energy-yet", c.getEoperation() == 0 && c.getHeatEvac() == 0 && c.getHeatabsorbed() == 0 && c.getTotalTime() == 0);
}
extern "C" void contract_open()
{
  const int n = vc_int("n", 1, 100000), s = vc_int("control", 0, 8);
  CoolSystem_open c(n, s);
  vc_ensure("open-system-never-pumps", c.getFlr() == 0);
  any_cool(c, s);
  CoolSystem &b = c;
  b.control(vc_real_in("Tlocal", 270, 340), vc_real_in("Tglobal", 270, 340));
  vc_ensure("open-system-stays-without-flow", c.getFlr() == 0);
  vc_ensure("open-system-has-constant-convection", b.getH() == 90);
  const double e0 = b.getEoperation();
  b.dstate(vc_real_in("Q", -1e5, 1e5), vc_real_in("Qchildren", -1e5, 1e5), vc_real_in("t", 0, 1e4));
  vc_ensure_eq("open-system-uses-no-energy", b.getEoperation(), e0);
}
extern "C" void contract_copy()
{
  CoolSystem c;
  any_cool(c, vc_int("control", 0, 7));
  const double T0 = c.T();
  CoolSystem *d = c.copy();
  vc_ensure("copy-has-the-same-state", d->T() == c.T() && d->getFlr() == c.getFlr() && d->getControl() == c.getControl() && d->getEoperation() == c.getEoperation() && d->getTotalTime() == c.getTotalTime() && d->getHeatEvac() == c.getHeatEvac());
  vc_ensure("copy-has-the-same-parameters", d->fluid_V == c.fluid_V && d->Across == c.Across && d->fluid_rho == c.fluid_rho && d->fluid_cp == c.fluid_cp && d->control_onoff_flr == c.control_onoff_flr);
  d->setT(300);
  vc_ensure("copy-is-independent", c.T() == T0);
}
