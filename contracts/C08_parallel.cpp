#include "_module.hpp"
template <class F> void with_parallel(int lo, F f)
{
  const int n = vc_size("n", lo, 100);
  Module_p m;
  Children c = attach(m, n);
  f(m, c, n);
  vc_stop();
}
template <class G> double largest(int n, G g) { return n == 0 ? 0 : vc_fold(n - 1, g(0), [&](double a, int i) { return std::max(a, g(i + 1)); }); }
template <class G> double smallest(int n, G g) { return n == 0 ? 0 : vc_fold(n - 1, g(0), [&](double a, int i) { return std::min(a, g(i + 1)); }); }
extern "C" void contract_parallel_Vmin()
{
  with_parallel(0, [](Module_p &m, Children &c, int n) { const double v = m.Vmin(); vc_ensure_eq("parallel-Vmin-is-largest", v, largest(n, [&](int i) { return c[i].cVmin; })); });
}
extern "C" void contract_parallel_VMIN()
{
  with_parallel(0, [](Module_p &m, Children &c, int n) { const double v = m.VMIN(); vc_ensure_eq("parallel-VMIN-is-largest", v, largest(n, [&](int i) { return c[i].cVMIN; })); });
}
extern "C" void contract_parallel_Vmax()
{
  with_parallel(0, [](Module_p &m, Children &c, int n) { const double v = m.Vmax(); vc_ensure_eq("parallel-Vmax-is-smallest", v, smallest(n, [&](int i) { return c[i].cVmax; })); });
}
extern "C" void contract_parallel_VMAX()
{
  with_parallel(0, [](Module_p &m, Children &c, int n) { const double v = m.VMAX(); vc_ensure_eq("parallel-VMAX-is-smallest", v, smallest(n, [&](int i) { return c[i].cVMAX; })); });
}
extern "C" void contract_parallel_OCV()
{
  with_parallel(0, [](Module_p &m, Children &c, int n) { vc_ensure_eq("parallel-OCV-is-mean", m.getOCV(), n == 0 ? 0 : vc_sum(n, [&](int i) { return c[i].cOCV; }) / n); });
}
extern "C" void contract_parallel_current()
{
  with_parallel(0, [](Module_p &m, Children &c, int n) { vc_ensure_eq("parallel-current-is-sum", m.I(), vc_sum(n, [&](int i) { return c[i].cI; })); });
}
extern "C" void contract_parallel_capacity()
{
  with_parallel(0, [](Module_p &m, Children &c, int n) { vc_ensure_eq("parallel-capacity-is-sum", m.Cap(), vc_sum(n, [&](int i) { return c[i].cCap; })); });
}
extern "C" void contract_parallel_V()
{
  with_parallel(1, [](Module_p &m, Children &c, int n) {
    m.Vmodule_valid = vc_bool("valid");
    m.Vmodule = vc_real_in("cached", -1e3, 1e3);
    vc_ensure_eq("parallel-V-is-first-branch-less-total-drop", m.V(), SpecSU::Vspec(0, c[0].cI, c[0].ver) - m.Rcontact[0] * vc_sum(n, [&](int i) { return c[i].cI; }));
  });
}
extern "C" void contract_parallel_empty()
{
  Module_p m;
  vc_ensure_eq("empty-module-has-no-voltage", m.V(), 0);
  vc_ensure_eq("empty-module-has-no-resistance", m.getRtot(), 0);
  vc_ensure_eq("empty-module-has-no-current", m.I(), 0);
}
// resistances: ladder from the far end
extern "C" void contract_parallel_Rtot()
{
  with_parallel(1, [](Module_p &m, Children &c, int n) {
    const double r = m.getRtot();
    vc_ensure_eq("parallel-resistance-is-ladder", r, vc_fold(n - 1, m.Rcontact[n - 1] + c[n - 1].cRtot, [&](double a, int j) { const int i = n - 2 - j; return m.Rcontact[i] + c[i].cRtot * a / (c[i].cRtot + a); }));
  });
}
// voltage of every branch seen from the terminals
extern "C" void contract_parallel_Vall()
{
  with_parallel(1, [](Module_p &m, Children &c, int n) {
    double *v = vc_array("Vall", n);
    std::span<double> sp(v, n);
    m.getVall(sp, false);
    // counted from the far end: current beyond the t-th resistor, and the sum of the drops over the first T resistors
    auto behind = [&](int t) { return vc_sum(t + 1, [&](int u) { return c[n - 1 - u].cI; }); };
    auto drops = [&](int T) { return vc_sum(T, [&](int t) { return m.Rcontact[n - 1 - t] * behind(t); }); };
    vc_ensure_all("branch-voltage-less-drops-on-the-way", n, [&](int i) { return vc_eq(v[i], SpecSU::Vspec(i, c[i].cI, c[i].ver) - (drops(n) - drops(n - 1 - i))); });
  });
}
