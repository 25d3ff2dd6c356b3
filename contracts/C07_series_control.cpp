#include "_module.hpp"
// every child takes exactly one step of the requested length, whatever the number of worker threads
template <class M> void timestep()
{
  const int n = vc_size("n", 0, 100);
  M m;
  Children c = attach(m, n);
  m.par = vc_bool("par");
  const double dt = vc_real_in("dt", 0, 1e4);
  const int ns = vc_int("nstep", 0, 1000);
  m.blockDegAndTherm = true;
  m.Vmodule_valid = vc_bool("valid");
  m.therm.time = vc_real_in("t0", 0, 1e6);
  m.therm.Qcontact = vc_real_in("Q0", 0, 1e6);
  const double t0 = m.therm.time, Q0 = m.therm.Qcontact;
  m.timeStep_CC(dt, ns);
  vc_ensure_all("every-child-takes-the-step-once", n, [&](int i) { return vc_and(vc_eq(c[i].steps, ns), vc_eq(c[i].elapsed, dt * ns)); });
  vc_ensure_all("child-currents-kept", n, [&](int i) { return vc_eq(c[i].cI, c[i].I0); });
  vc_ensure("step-drops-cached-voltage", !m.Vmodule_valid);
  vc_ensure("blocked-thermal-model-is-untouched", m.therm.time == t0 && m.therm.Qcontact == Q0);
  vc_stop();
}
extern "C" void contract_timestep() { timestep<Module_s>(); }
//@opt[contract_timestep_3threads] threads=3
extern "C" void contract_timestep_3threads() { timestep<Module_s>(); }
// with a thermal model: time and the heat of the contact resistors accumulate
extern "C" void contract_timestep_heat()
{
  const int n = vc_size("n", 0, 100);
  Module_s m, top;
  Children c = attach(m, n);
  CoolSystem cool;
  cool.Tcoolant = vc_real_in("T", 273, 340);
  cool.control_strategy = 1;
  m.cool = Deep_ptr<CoolSystem>(&cool);
  m.parent = &top;
  m.par = false;
  const double dt = vc_real_in("dt", 0, 1e4);
  const int ns = vc_int("nstep", 0, 1000);
  m.blockDegAndTherm = false;
  m.therm.time = vc_real_in("t0", 0, 1e6);
  m.therm.Qcontact = vc_real_in("Q0", 0, 1e6);
  const double t0 = m.therm.time, Q0 = m.therm.Qcontact;
  m.timeStep_CC(dt, ns);
  vc_ensure_eq("thermal-time-accumulates", m.therm.time, t0 + ns * dt);
  const double I = n == 0 ? 0 : c[0].cI;
  vc_ensure_eq("contact-heat-is-sum-of-I2R", m.therm.Qcontact, Q0 + vc_sum(n, [&](int i) { return m.Rcontact[i] * (I * I) * ns * dt; }));
  vc_ensure_all("every-child-takes-the-step-once", n, [&](int i) { return vc_and(vc_eq(c[i].steps, ns), vc_eq(c[i].elapsed, dt * ns)); });
  vc_stop();
}
extern "C" void contract_negative_step()
{
  const int n = vc_size("n", 0, 100);
  Module_s m;
  Children c = attach(m, n);
  m.par = vc_bool("par");
  const double dt = vc_real_in("dt", -1e4, -1e-9);
  bool thrown = false;
  try {
    m.timeStep_CC(dt, vc_int("nstep", 0, 1000));
  } catch (int e) { thrown = e == 10; }
  vc_ensure("negative-step-is-refused", thrown);
  vc_ensure_all("refused-step-leaves-children", n, [&](int i) { return vc_and(vc_eq(c[i].steps, 0), vc_eq(c[i].elapsed, 0)); });
  vc_stop();
}
extern "C" void contract_setCurrent()
{
  const int n = vc_size("n", 0, 100);
  Module_s m;
  Children c = attach(m, n);
  m.Vmodule_valid = vc_bool("valid");
  const double Inew = vc_real_in("Inew", -100, 100);
  const Status r = m.setCurrent(Inew, true, false);
  vc_ensure("changed-current-drops-cached-voltage", !m.Vmodule_valid);
  if (static_cast<int>(r) >= 3) {
    vc_cover("rejected");
    vc_ensure_all("rejected-current-leaves-every-child", n, [&](int i) { return vc_eq(c[i].cI, c[i].I0); });
  } else {
    vc_cover("accepted");
    vc_ensure_all("accepted-current-reaches-every-child", n, [&](int i) { return vc_eq(c[i].cI, Inew); });
    vc_ensure_all("accepted-only-if-every-child-accepts", n, [&](int i) { return SpecSU::set_status(i, Inew) < 3; });
    if (n > 0) vc_ensure_eq("module-current-is-the-new-current", m.I(), Inew);
  }
  vc_ensure_all("nothing-but-the-current-changes", n, [&](int i) { return vc_and(vc_eq(c[i].ver, 0), vc_eq(c[i].steps, 0)); });
  vc_stop();
}
extern "C" void contract_setCurrent_unchecked()
{
  const int n = vc_size("n", 0, 100);
  Module_s m;
  Children c = attach(m, n);
  m.Vmodule_valid = vc_bool("valid");
  const double Inew = vc_real_in("Inew", -100, 100);
  const Status r = m.setCurrent(Inew, false, false);
  vc_ensure("unchecked-current-is-accepted", static_cast<int>(r) < 3);
  vc_ensure("changed-current-drops-cached-voltage", !m.Vmodule_valid);
  vc_ensure_all("unchecked-current-reaches-every-child", n, [&](int i) { return vc_eq(c[i].cI, Inew); });
  vc_stop();
}
