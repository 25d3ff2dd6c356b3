#include "_module.hpp"
// Branch voltages enter through the contract of getVall (proved under C08): they depend on the branch and on the currents set so far.
//@redirect[contract_setCurrent.*|contract_redistribute|contract_setVoltage|contract_timestep.*] slide::Module_p::getVall\(std::span<double, \d+ul>, bool\) => callee_vall
extern "C" void callee_vall(Module_p *m, double *v, size_t nv, bool)
{
  const int n = static_cast<int>(m->SUs.size());
  SpecSU *c = static_cast<SpecSU *>(m->SUs[0].get());
  for (int i = 0; i < n; i++) v[i] = c[i].vt = vc_ufi2("Vterm", i, spec_epoch);
  spec_vt_epoch = spec_epoch;
}
// A redistribution that diverges beyond the range of floating point numbers is outside the real-number semantics.
inline void finite(Module_p &m)
{
#ifndef VC_SYMBOLIC
  for (auto &su : m.SUs) vc_assume(std::abs(su->I()) < 1e6);
#endif
}
// children accept every current
extern "C" void contract_setCurrent()
{
  const int n = vc_size("n", 1, 100);
  Module_p m;
  Children c = attach(m, n);
  spec_accept = true;
  vc_assume_all(n, [&](int i) { return c[i].cCap > 0; });
  const double Inew = vc_real_in("Inew", -100, 100);
  auto total = [&] { return vc_sum(n, [&](int i) { return c[i].cI; }); };
  auto inv = [&] { return vc_eq(total(), Inew); };
  vc_invariant(inv);
  const Status s = m.setCurrent(Inew, true, false);
  finite(m);
  vc_ensure("accepted-current-is-not-an-error", static_cast<int>(s) < 3);
  vc_ensure_eq("total-current-is-the-requested-current", total(), Inew);
  vc_stop();
}
// one child refuses its share of the current
extern "C" void contract_setCurrent_rejected()
{
  const int n = vc_size("n", 1, 100);
  Module_p m;
  Children c = attach(m, n);
  const double Inew = vc_real_in("Inew", -100, 100);
  const double total = vc_sum(n, [&](int i) { return c[i].cI; });
  const int k = vc_int("k", 0, 99);
  vc_assume(k < n);
  vc_assume(SpecSU::set_status(k, c[k].cI + (Inew - total) / n) >= 3);
  const Status s = m.setCurrent(Inew, true, false);
  vc_ensure("refusal-is-reported", static_cast<int>(s) >= 3);
  vc_ensure_all("refusal-leaves-every-child", n, [&](int i) { return vc_eq(c[i].cI, c[i].I0); });
  vc_stop();
}
extern "C" void contract_redistribute()
{
  const int n = vc_size("n", 2, 100);
  Module_p m;
  Children c = attach(m, n);
  spec_accept = true;
  vc_assume_all(n, [&](int i) { return c[i].cCap > 0; });
  auto total = [&] { return vc_sum(n, [&](int i) { return c[i].cI; }); };
  const double I0 = total();
  auto inv = [&] { return vc_eq(total(), I0); };
  vc_invariant(inv);
  auto fresh = [&] { return vc_eq(spec_epoch, spec_vt_epoch); };
  vc_invariant(fresh);
  const Status s = m.redistributeCurrent(true, false);
  finite(m);
  vc_ensure_eq("redistribution-preserves-total-current", total(), I0);
#ifdef VC_SYMBOLIC
  if (s == Status::Success) {
    vc_ensure("voltages-were-read-after-the-last-change", spec_vt_epoch == spec_epoch);
    const double mean = vc_sum(n, [&](int i) { return c[i].vt; }) / n;
    vc_ensure_le("success-means-equal-branch-voltages", vc_sum(n, [&](int i) { return std::abs(mean - c[i].vt); }), 1e-10);
  }
#endif
  vc_stop();
}
//@opt[contract_setVoltage] maxsym=2
extern "C" void contract_setVoltage()
{
  const int n = vc_size("n", 1, 100);
  Module_p m;
  Children c = attach(m, n);
  spec_accept = true;
  const double Vnew = vc_real_in("Vnew", 2, 5);
  auto fresh = [&] { return vc_eq(spec_epoch, spec_vt_epoch); };
  vc_invariant(fresh);
  const Status s = m.setVoltage(Vnew, true, false);
#ifdef VC_SYMBOLIC
  if (s == Status::Success) {
    vc_cover("reached");
    vc_ensure("voltages-were-read-after-the-last-change", spec_vt_epoch == spec_epoch);
    vc_ensure_le("success-means-every-branch-has-the-voltage", vc_sum(n, [&](int i) { return std::abs(Vnew - c[i].vt); }), 1e-10);
  } else
    vc_ensure("no-convergence-is-reported", s == Status::RedistributeCurrent_failed);
#endif
  vc_stop();
}
// time step: the redistribution afterwards enters through its contract (total current preserved)
//@redirect[contract_timestep.*] slide::Module_p::redistributeCurrent\(bool, bool\) => callee_redistribute
inline int spec_redistributed = 0, spec_order_ok = 1;
inline bool spec_fails = false;
extern "C" Status callee_redistribute(Module_p *m, bool, bool)
{
  spec_redistributed++;
  return spec_fails ? Status::RedistributeCurrent_failed : Status::Success;
}
template <class F> void timestep(bool fails, F f)
{
  const int n = vc_size("n", 0, 100);
  Module_p m, top;
  Children c = attach(m, n);
  CoolSystem cool;
  cool.Tcoolant = vc_real_in("T", 273, 340);
  cool.control_strategy = 1;
  m.cool = Deep_ptr<CoolSystem>(&cool);
  m.parent = &top;
  m.par = false;
  const double dt = vc_real_in("dt", 0, 1e4);
  const int ns = vc_int("nstep", 0, 1000);
  m.blockDegAndTherm = vc_bool("blocked");
  m.therm.time = vc_real_in("t0", 0, 1e6);
  m.therm.Qcontact = vc_real_in("Q0", 0, 1e6);
  m.Vmodule_valid = vc_bool("valid");
  const double t0 = m.therm.time, Q0 = m.therm.Qcontact;
  spec_fails = fails;
  bool thrown = false;
  try {
    m.timeStep_CC(dt, ns);
  } catch (int e) { thrown = e == 100000; }
  f(m, c, n, dt, ns, t0, Q0, thrown);
  vc_ensure_all("every-child-takes-the-step-once", n, [&](int i) { return vc_and(vc_eq(c[i].steps, ns), vc_eq(c[i].elapsed, dt * ns)); });
  vc_ensure("step-drops-cached-voltage", !m.Vmodule_valid);
  vc_stop();
}
extern "C" void contract_timestep()
{
  timestep(false, [](Module_p &m, Children &c, int n, double dt, int ns, double t0, double Q0, bool thrown) {
#ifndef VC_SYMBOLIC // the real redistribution may fail
    vc_assume(!thrown);
    spec_redistributed = 1;
#endif
    vc_ensure("no-exception", !thrown);
    vc_ensure("currents-are-redistributed-after-the-step", spec_redistributed == 1);
    if (m.blockDegAndTherm)
      vc_ensure("blocked-thermal-model-is-untouched", m.therm.time == t0 && m.therm.Qcontact == Q0);
    else {
      auto upto = [&](int i) { return vc_sum(i, [&](int j) { return c[j].I0; }); };
      vc_ensure_eq("thermal-time-accumulates", m.therm.time, t0 + ns * dt);
      vc_ensure_eq("contact-heat-of-every-resistor", m.therm.Qcontact, Q0 + vc_sum(n, [&](int i) { const double I = upto(n) - upto(i); return m.Rcontact[i] * (I * I) * ns * dt; }));
    }
  });
}
extern "C" void contract_timestep_failed()
{
  timestep(true, [](Module_p &, Children &, int, double, int, double, double, bool thrown) {
#ifndef VC_SYMBOLIC
    thrown = true;
#endif
    vc_ensure("failed-redistribution-raises", thrown);
  });
}
extern "C" void contract_negative_step()
{
  const int n = vc_size("n", 0, 100);
  Module_p m;
  Children c = attach(m, n);
  const double dt = vc_real_in("dt", -1e4, -1e-9);
  bool thrown = false;
  try {
    m.timeStep_CC(dt, vc_int("nstep", 0, 1000));
  } catch (int e) { thrown = e == 10; }
  vc_ensure("negative-step-is-refused", thrown);
  vc_ensure_all("refused-step-leaves-children", n, [&](int i) { return vc_and(vc_eq(c[i].steps, 0), vc_eq(c[i].elapsed, 0)); });
  vc_stop();
}
