#pragma once
#include "vc.hpp"
#include "slide.hpp"
#include "_coolsrc.hpp"
using namespace slide;
// an arbitrary cooling system (any parameters, any history)
template <class C> void any_cool(C &c, int strategy)
{
  c.Tcoolant = vc_real_in("T", 273, 348);
  c.flowrate = vc_real_in("flowrate", 0, 2);
  c.fluid_rho = vc_real_in("rho", 0.5, 1000);
  c.fluid_cp = vc_real_in("cp", 500, 5000);
  c.fluid_V = vc_real_in("Vol", 0.1, 1000);
  c.control_strategy = strategy;
  c.control_onoff_Ton = vc_real_in("Ton", 293, 320);
  c.control_onoff_Toff = vc_real_in("Toff", 280, 310);
  vc_assume(c.control_onoff_Toff < c.control_onoff_Ton);
  c.control_onoff_flr = vc_real_in("flr_on", 0, 2);
  c.control_prop_T = vc_real_in("propT", 280, 310);
  c.control_prop_gain = vc_real_in("gain", 0.01, 1);
  c.Across = vc_real_in("Across", 1e-5, 1);
  c.eta = vc_real_in("eta", 0.1, 1);
  c.coolData.cData.Qevac_life = vc_real_in("Qevac_life", 0, 1e6);
  c.coolData.cData.Qevac = vc_real_in("Qevac", 0, 1e6);
  c.coolData.cData.Qabs_life = vc_real_in("Qabs_life", 0, 1e6);
  c.coolData.cData.t_life = vc_real_in("t_life", 0, 1e6);
  c.coolData.cData.time = vc_real_in("time", 0, 1e6);
  c.coolData.cData.time_life = vc_real_in("time_life", 0, 1e6);
  c.coolData.cData.E = vc_real_in("E", 0, 1e6);
  c.coolData.cData.Eoperate = vc_real_in("Eop", 0, 1e6);
}
struct CoolOld { double T, flr; decltype(CoolSystemData::cData) d; };
template <class C> CoolOld snapshot(C &c) { return { c.Tcoolant, c.flowrate, c.coolData.cData }; }
// power of the fan [W]: kinetic power of the air divided by the efficiency
template <class C> double spec_fan(C &c) { const double v = c.flowrate / c.Across; return (c.fluid_rho * c.Across * v * v * v / 2) / c.eta; }
