#include "_cool.hpp"
//@redirect[contract_heat_exchange] slide::CoolSystem_HVAC::getACoperatingPower\(double, double\) => callee_ac
extern "C" double callee_ac(CoolSystem_HVAC *c, double Q, double t) { return vc_uf2("ac_energy", Q, t); }
static void any_hvac(CoolSystem_HVAC &c, int strategy)
{
  any_cool(c, strategy);
  c.Q_ac = vc_real_in("Qac", 0, 1e5);
  c.COP = vc_real_in("COP", 0.1, 6);
  c.controlAC_onoff_Ton = vc_real_in("ACTon", 293, 310);
  c.controlAC_onoff_Toff = vc_real_in("ACToff", 280, 300);
  c.controlAC_onoff_Q = vc_real_in("ACQ", 0, 1e5);
  c.controlAC_prop_T = vc_real_in("ACpropT", 280, 300);
  c.controlAC_prop_gain = vc_real_in("ACgain", 0.01, 1);
  vc_assume(c.controlAC_onoff_Toff < c.controlAC_onoff_Ton);
  c.HVACdata.cData.Eac = vc_real_in("Eac", 0, 1e6);
  c.HVACdata.cData.QcoolAC = vc_real_in("QcoolAC", 0, 1e6);
}
extern "C" void contract_heat_exchange()
{
  CoolSystem_HVAC c;
  any_hvac(c, vc_int("control", 0, 7));
  const CoolOld o = snapshot(c);
  const double Eac0 = c.HVACdata.cData.Eac, QAC0 = c.HVACdata.cData.QcoolAC, Qac = c.Q_ac;
  const double Q = vc_real_in("Q", -1e5, 1e5), t = vc_real_in("t", 0, 1e4);
#ifdef VC_SYMBOLIC
  const double ac = vc_uf2("ac_energy", Qac, t);
#else
  const double ac = c.getACoperatingPower(Qac, t);
#endif
  const double Tnew = c.dstate(Q, Q, t);
  const auto &d = c.coolData.cData;
  const double fan = spec_fan(c) * t;
  vc_ensure_eq("net-heat-of-children-and-AC-goes-into-the-coolant", Tnew, o.T + (Q - Qac * t) / (c.fluid_rho * c.fluid_cp * c.fluid_V));
  vc_ensure("temperature-is-not-set-yet", c.T() == o.T && c.getFlr() == o.flr && c.Q_ac == Qac);
  vc_ensure_eq("net-heat-is-absorbed", d.Qabs_life, o.d.Qabs_life + Q - Qac * t);
  vc_ensure_eq("heat-of-the-children-accumulates", d.Qevac_life, o.d.Qevac_life + Q);
  vc_ensure_eq("heat-of-the-children-in-this-period", d.Qevac, o.d.Qevac + Q);
  vc_ensure_eq("heat-removed-by-the-AC-accumulates", c.getQcoolAC_tot(), QAC0 + Qac * t);
  vc_ensure_eq("lifetime-accumulates", d.t_life, o.d.t_life + t);
  vc_ensure_eq("time-of-this-period", d.time, o.d.time + t);
  vc_ensure_eq("simulation-time", d.time_life, o.d.time_life + t);
  vc_ensure_eq("fan-energy-accumulates", d.E, o.d.E + fan);
  vc_ensure_eq("AC-energy-accumulates", c.HVACdata.cData.Eac, Eac0 + ac);
  vc_ensure_eq("operating-energy-is-fan-plus-AC", d.Eoperate, o.d.Eoperate + fan + ac);
}
extern "C" void contract_mismatch()
{
  CoolSystem_HVAC c;
  any_hvac(c, vc_int("control", 0, 7));
  const CoolOld o = snapshot(c);
  const double Q = vc_real_in("Q", -1e5, 1e5), Qc = vc_real_in("Qchildren", -1e5, 1e5);
  vc_assume(Q - Qc > 1e-6 || Qc - Q > 1e-6);
  bool thrown = false;
  try {
    c.dstate(Q, Qc, vc_real_in("t", 0, 1e4));
  } catch (int e) {
    thrown = e == 10;
  }
  vc_ensure("heat-exchange-with-neighbours-is-refused", thrown);
  vc_ensure("nothing-is-accounted", c.T() == o.T && c.coolData.cData.Qabs_life == o.d.Qabs_life && c.coolData.cData.Eoperate == o.d.Eoperate && c.coolData.cData.t_life == o.d.t_life);
}
extern "C" void contract_ac_energy()
{
  CoolSystem_HVAC c;
  any_hvac(c, vc_int("control", 0, 7));
  const double Q = vc_real_in("Q", 0, 1e5), t = vc_real_in("t", 0, 1e4);
  const double E = c.getACoperatingPower(Q, t);
  if (Q == 0 || t == 0) vc_ensure("no-cooling-no-energy", E == 0);
  else if (c.Tcoolant - 5 < settings::T_ENV) vc_ensure_eq("active-cooling-costs-COP-times-the-heat", E, c.COP * Q * t);
  else {
    const double A = 2 * c.Across, v = Q / (c.fluid_rho * c.fluid_cp * (c.Tcoolant - settings::T_ENV)) / A;
    vc_ensure_eq("cold-environment-cools-with-a-fan", E, (c.fluid_rho * A * (v * v * v) / 2) / c.eta * t);
  }
}
static double spec_ac(CoolSystem_HVAC &c, double glob, double old)
{
  const double T = c.Tcoolant, full = c.controlAC_onoff_Q;
  switch (c.control_strategy) {
  case 1: return T < c.controlAC_onoff_Toff ? 0 : full;
  case 2: return T <= c.controlAC_onoff_Toff ? 0 : T >= c.controlAC_onoff_Ton ? full : old;
  case 3: return T <= c.controlAC_onoff_Toff ? 0 : glob >= c.controlAC_onoff_Ton ? full : old;
  case 4:
  case 5: {
    const double err = std::max((c.control_strategy == 4 ? T : glob) - c.controlAC_prop_T, 0.0);
    if (T <= c.controlAC_onoff_Toff) return 0;
    return c.control_prop_gain * err > 0.2 ? full * std::min(c.controlAC_prop_gain * err, 1.0) : 0;
  }
  default: return old;
  }
}
extern "C" void contract_control()
{
  CoolSystem_HVAC c;
  any_hvac(c, vc_int("control", -1, 8));
  const CoolOld o = snapshot(c);
  const double Q0 = c.Q_ac, Eac0 = c.HVACdata.cData.Eac;
  const double loc = vc_real_in("Tlocal", 270, 340), glob = vc_real_in("Tglobal", 270, 340);
  CoolSystem fan = c; // the fan of the container is controlled as in every cooling system (C19)
  fan.CoolSystem::control(loc, glob);
  CoolSystem &b = c;
  b.control(loc, glob);
  vc_ensure_eq("AC-power-follows-the-control-strategy", c.Q_ac, spec_ac(c, glob, Q0));
  vc_ensure_eq("fan-follows-the-control-strategy", c.getFlr(), fan.getFlr());
  vc_ensure("control-leaves-temperature-and-energy", c.T() == o.T && c.coolData.cData.Eoperate == o.d.Eoperate && c.HVACdata.cData.Eac == Eac0);
  const int s = c.control_strategy;
  if (s >= 1 && s <= 5 && c.Tcoolant < c.controlAC_onoff_Toff) vc_ensure("never-cools-below-the-minimum-temperature", c.Q_ac == 0);
  if (s >= 1 && s <= 5 && Q0 <= c.controlAC_onoff_Q) vc_ensure("never-exceeds-the-design-power", c.Q_ac <= c.controlAC_onoff_Q);
}
extern "C" void contract_construct()
{
  const int n = vc_int("n", 1, 100000), s = vc_int("control", 0, 8);
  const double Q0 = vc_real_in("Q0", 0, 1e6);
  CoolSystem_HVAC c(n, s, Q0);
  vc_ensure_eq("AC-power-is-sized-for-cells-and-idle-losses", c.Q_ac, 7.5 * n + Q0);
  vc_ensure_eq("AC-design-power", c.controlAC_onoff_Q, 7.5 * n + Q0);
  vc_ensure_eq("inertia-grows-with-the-idle-losses", c.fluid_V * (7.5 * n), n * (7.5 * n + Q0));
  vc_ensure_eq("fan-scales-with-cells", c.getFlr(), 0.0005 * n);
  vc_ensure("cools-the-requested-number-of-cells", static_cast<int>(c.Ncells) == n && c.getControl() == s);
  vc_ensure("off-threshold-below-on-threshold", c.controlAC_onoff_Toff < c.controlAC_onoff_Ton && c.controlAC_onoff_Toff <= c.controlAC_prop_T && c.controlAC_prop_T < c.controlAC_onoff_Ton);
  vc_ensure("control-3-and-5-let-the-hot-spot-reach-30-degrees", c.controlAC_onoff_Ton == ((s == 3 || s == 5) ? 303.0 : 298.0));
  vc_ensure_le("proportional-control-reaches-full-power-at-the-on-temperature", std::abs(c.controlAC_prop_gain * (c.controlAC_onoff_Ton - c.controlAC_prop_T) - 1), 1e-9);
  vc_ensure("no-energy-yet", c.getEoperation() == 0 && c.getQcoolAC_tot() == 0 && c.HVACdata.cData.Eac == 0);
}
extern "C" void contract_copy()
{
  CoolSystem_HVAC c;
  any_hvac(c, vc_int("control", 0, 7));
  CoolSystem_HVAC *d = static_cast<CoolSystem_HVAC *>(static_cast<CoolSystem &>(c).copy());
  vc_ensure("copy-has-the-same-AC", d->Q_ac == c.Q_ac && d->COP == c.COP && d->getQcoolAC_tot() == c.getQcoolAC_tot() && d->controlAC_onoff_Q == c.controlAC_onoff_Q && d->controlAC_prop_gain == c.controlAC_prop_gain);
  vc_ensure("copy-has-the-same-state", d->T() == c.T() && d->getFlr() == c.getFlr() && d->getControl() == c.getControl() && d->getEoperation() == c.getEoperation());
}
