#include "_ecm.hpp"
#include "_status.hpp"
// getOCV() enters through its contract (proved in C01): some function of the SOC inside the table, throws 1 outside
template <size_t N> double ocv_spec(Cell_ECM<N> &c)
{
#ifdef VC_SYMBOLIC
  return vc_uf1("ocv", c.st.SOC());
#else
  return ecm_ocv(c, c.st.SOC());
#endif
}
//@redirect slide::Cell_ECM<0ul>::getOCV\(\) => callee_ocv_0
//@redirect slide::Cell_ECM<1ul>::getOCV\(\) => callee_ocv_1
//@redirect slide::Cell_ECM<2ul>::getOCV\(\) => callee_ocv_2
template <size_t N> double callee_ocv(Cell_ECM<N> *c)
{
  if (!ecm_in_range(*c, c->st.SOC())) throw 1;
  return ocv_spec(*c);
}
extern "C" double callee_ocv_0(Cell_ECM<0> *c) { return callee_ocv(c); }
extern "C" double callee_ocv_1(Cell_ECM<1> *c) { return callee_ocv(c); }
extern "C" double callee_ocv_2(Cell_ECM<2> *c) { return callee_ocv(c); }
template <size_t N> double Vof(Cell_ECM<N> &c) // specification of the voltage in the present state
{
  if (!ecm_in_range(c, c.st.SOC())) return 0;
  double v = ocv_spec(c) - c.Rdc * c.st.I();
  for (size_t i = 0; i < N; i++) v -= c.Rp[i] * c.st.Ir(i);
  return v;
}
template <size_t N> int status_of(Cell_ECM<N> &c) { return spec_volt_status(Vof(c), c.st.I(), 2.7, 2.0, 4.2, 4.3); }
template <size_t N> void same_except(Cell_ECM<N> &c, const State_ECM<N> &before, size_t k, const char *nm)
{
  for (size_t i = 0; i < c.st.size(); i++)
    if (i != k) vc_ensure(nm, c.st[i] == before[i]);
}
template <size_t N> void set_current(bool check)
{
  Cell_ECM<N> c;
  ecm_any(c);
  const auto before = c.st;
  const double Inew = vc_real_in("Inew", -1e3, 1e3);
  const Status s = c.setCurrent(Inew, check);
  if (static_cast<int>(s) >= 3) {
    same_except(c, before, 99, "rejected-current-leaves-state");
    vc_ensure("bad-status-only-when-checking", check);
    c.st.I() = Inew;
    vc_ensure("status-is-classification", static_cast<int>(s) == status_of(c));
  } else {
    vc_ensure_eq("accepted-current-is-set", c.st.I(), Inew);
    vc_ensure_eq("I-reports-current", c.I(), Inew);
    same_except(c, before, 2, "only-current-changes");
    vc_ensure("status-is-classification", static_cast<int>(s) == (check ? status_of(c) : 0));
    vc_ensure("charging-sign", c.isCharging() == (Inew < 0));
    vc_ensure("discharging-sign", c.isDischarging() == (Inew > 0));
  }
}
extern "C" void contract_setCurrent_0() { set_current<0>(true); }
extern "C" void contract_setCurrent_1() { set_current<1>(true); }
extern "C" void contract_setCurrent_1_nocheck() { set_current<1>(false); }
template <size_t N> void set_soc(bool check)
{
  Cell_ECM<N> c;
  ecm_any(c);
  const auto before = c.st;
  const double s1 = vc_real_in("SOCnew", -1, 2);
  const Status s = c.setSOC(s1, check);
  if (s1 < 0 || s1 > 1) {
    vc_ensure("illegal-SOC-is-refused", s == Status::SOC_limits_violation);
    same_except(c, before, 99, "refused-SOC-leaves-state");
    return;
  }
  if (static_cast<int>(s) >= 3) {
    same_except(c, before, 99, "refused-SOC-leaves-state");
    vc_ensure("bad-status-only-when-checking", check);
    c.st.SOC() = s1;
    vc_ensure("status-is-classification", static_cast<int>(s) == status_of(c));
  } else {
    vc_ensure_eq("accepted-SOC-is-set", c.SOC(), s1);
    same_except(c, before, 1, "only-SOC-changes");
    vc_ensure("status-is-classification", static_cast<int>(s) == (check ? status_of(c) : 0));
  }
}
extern "C" void contract_setSOC_1() { set_soc<1>(true); }
extern "C" void contract_setSOC_0_nocheck() { set_soc<0>(false); }
template <size_t N> void set_voltage(bool check)
{
  Cell_ECM<N> c;
  ecm_any(c);
  const auto before = c.st;
  const double Vnew = vc_real_in("Vnew", 0, 6);
  try {
    const Status s = c.setVoltage(Vnew, check);
    vc_ensure("voltage-set-only-inside-OCV-table", ecm_in_range(c, before[1]));
    if (static_cast<int>(s) >= 3) {
      same_except(c, before, 99, "rejected-voltage-leaves-state");
      vc_ensure("bad-status-only-when-checking", check);
    } else {
      vc_ensure_eq("accepted-voltage-is-reached", c.V(), Vnew);
      same_except(c, before, 2, "only-current-changes");
      vc_ensure("status-is-classification", static_cast<int>(s) == (check ? status_of(c) : 0));
    }
  } catch (int) {
    vc_ensure("exception-only-outside-OCV-table", !ecm_in_range(c, before[1]));
    same_except(c, before, 99, "exception-leaves-state");
  }
}
extern "C" void contract_setVoltage_0() { set_voltage<0>(true); }
extern "C" void contract_setVoltage_1() { set_voltage<1>(true); }
extern "C" void contract_setVoltage_2_nocheck() { set_voltage<2>(false); }
template <size_t N> void set_states(bool check)
{
  Cell_ECM<N> c;
  ecm_any(c);
  const auto before = c.st;
  constexpr size_t M = 6 + N;
  std::vector<double> buf;
  for (size_t i = 0; i < M + 3; i++) buf.push_back(vc_real_in("new", -1e3, 1e3));
  std::span<double> s(buf);
  const Status r = c.setStates(s, check);
  vc_ensure("span-advanced-by-own-states", s.size() == 3 && s.data() == buf.data() + M);
  for (size_t i = 0; i < 3; i++) vc_ensure("input-untouched", s[i] == buf[M + i]);
  const bool valid = buf[1] >= 0 && buf[1] <= 1 && buf[0] >= c.Tmin() && buf[0] <= c.Tmax();
  if (!valid) vc_ensure("invalid-states-are-refused", r == Status::Invalid_states);
  if (static_cast<int>(r) >= 3) {
    for (size_t i = 0; i < M; i++) vc_ensure("refused-states-leave-state", c.st[i] == before[i]);
  } else {
    vc_ensure("accepted-only-if-valid", valid);
    for (size_t i = 0; i < M; i++) vc_ensure("accepted-states-are-set", c.st[i] == buf[i]);
    vc_ensure("status-is-classification", static_cast<int>(r) == (check ? status_of(c) : 0));
    vc_cover("accepted");
  }
  std::vector<double> out;
  out.push_back(7);
  c.getStates(out);
  vc_ensure("getStates-appends", out.size() == M + 1 && out[0] == 7);
  for (size_t i = 0; i < M; i++) vc_ensure("getStates-is-state", out[i + 1] == c.st[i]);
  vc_ensure("layout", c.T() == out[1] && c.SOC() == out[2] && c.I() == out[3]);
  for (size_t i = 0; i < N; i++) vc_ensure("layout-Ir", c.st.Ir(i) == out[4 + i]);
  const auto th = c.getThroughputs();
  vc_ensure("layout-throughput", th.time() == out[4 + N] && th.Ah() == out[5 + N] && th.Wh() == out[6 + N]);
  auto v = c.viewStates();
  vc_ensure("viewStates-is-state", v.data() == &c.st[0] && v.size() == M);
}
extern "C" void contract_setStates_0() { set_states<0>(true); }
extern "C" void contract_setStates_1() { set_states<1>(true); }
extern "C" void contract_setStates_1_nocheck() { set_states<1>(false); }
extern "C" void contract_constructor()
{
  const double cap = vc_real_in("cap", 1e-3, 1e4), soc = vc_real_in("SOC", -1, 2), R = vc_real_in("R", 0, 1), rp = vc_real_in("Rp", 0, 1), it = vc_real_in("it", 0, 1);
  try {
    Cell_ECM<1> c(cap, soc, R, { rp }, { it });
    vc_ensure("constructed-only-with-legal-SOC", soc >= 0 && soc <= 1);
    vc_ensure_eq("capacity", c.Cap(), cap);
    vc_ensure_eq("SOC", c.SOC(), soc);
    vc_ensure_eq("resistance", c.getRtot(), R);
    vc_ensure("RC", c.Rp[0] == rp && c.inv_tau[0] == it);
    vc_ensure("at-rest", c.I() == 0 && c.getIr() == 0);
    vc_ensure_eq("OCV-is-2V-to-4.3V", c.OCV.interp(soc), 2.0 + 2.3 * soc);
  } catch (int e) {
    vc_ensure("illegal-SOC-throws-10", e == 10 && (soc < 0 || soc > 1));
  }
}
