#include "_ecm.hpp"
// V() enters through its contract (C01): a function of SOC, I and the RC currents only
template <size_t N> double Vspec(Cell_ECM<N> &c, double soc, double I, double ir0, double ir1)
{
#ifdef VC_SYMBOLIC
  return vc_uf4("V", soc, I, ir0, ir1);
#else
  if (!ecm_in_range(c, soc)) return 0;
  double v = ecm_ocv(c, soc) - c.Rdc * I;
  if constexpr (N > 0) v -= c.Rp[0] * ir0;
  if constexpr (N > 1) v -= c.Rp[1] * ir1;
  return v;
#endif
}
//@redirect slide::Cell_ECM<0ul>::V\(\) => callee_V_0
//@redirect slide::Cell_ECM<1ul>::V\(\) => callee_V_1
//@redirect slide::Cell_ECM<2ul>::V\(\) => callee_V_2
extern "C" double callee_V_0(Cell_ECM<0> *c) { return Vspec(*c, c->st.SOC(), c->st.I(), 0, 0); }
extern "C" double callee_V_1(Cell_ECM<1> *c) { return Vspec(*c, c->st.SOC(), c->st.I(), c->st.Ir(0), 0); }
extern "C" double callee_V_2(Cell_ECM<2> *c) { return Vspec(*c, c->st.SOC(), c->st.I(), c->st.Ir(0), c->st.Ir(1)); }
template <size_t N> void time_step()
{
  Cell_ECM<N> c;
  ecm_any(c);
  const auto s0 = c.st;
  const double dt = vc_real_in("dt", 0, 1e4);
  const int n = vc_size("nstep", 0, 1000000);
  c.timeStep_CC(dt, n);
  const double I = s0[2], cap = c.capNom;
  vc_ensure("temperature-and-current-kept", c.st[0] == s0[0] && c.st[2] == I);
  vc_ensure_eq("charge-conservation", (s0[1] - c.st.SOC()) * cap, I * dt * n / 3600);
  vc_ensure_eq("time-accumulates", c.st.time(), s0[3 + N] + n * dt);
  vc_ensure_eq("Ah-throughput-is-charge-moved", c.st.Ah(), s0[4 + N] + n * (std::abs(I) * dt / 3600));
  auto Ir = [&](size_t i, int k) { return vc_fold(k, s0[3 + i], [&](double a, int) { return a + dt * c.inv_tau[i] * (I - a); }); };
  for (size_t i = 0; i < N; i++) vc_ensure_eq("RC-branch-is-forward-Euler-relaxation", c.st.Ir(i), Ir(i, n));
  vc_ensure_eq("Wh-throughput-is-sum-of-energy-steps", c.st.Wh(), s0[5 + N] + vc_sum(n, [&](int k) {
    const double soc = s0[1] - (k + 1) * (I * dt / 3600 / cap);
    return std::abs(I * dt / 3600 * Vspec(c, soc, I, N > 0 ? Ir(0, k + 1) : 0, N > 1 ? Ir(1, k + 1) : 0));
  }));
}
extern "C" void contract_timestep_0() { time_step<0>(); }
extern "C" void contract_timestep_1() { time_step<1>(); }
extern "C" void contract_timestep_2() { time_step<2>(); }
extern "C" void contract_negative_dt()
{
  Cell_ECM<1> c;
  ecm_any(c);
  const auto s0 = c.st;
  const double dt = vc_real_in("dt", -1e4, -1e-9);
  const int n = vc_int("nstep", 0, 1000000);
  bool thrown = false;
  try {
    c.timeStep_CC(dt, n);
  } catch (int) { thrown = true; }
  vc_ensure("negative-step-is-refused", thrown);
  for (size_t i = 0; i < c.st.size(); i++) vc_ensure("refused-step-leaves-state", c.st[i] == s0[i]);
}
