#include "_module.hpp"
template <class F> void with_series(int lo, F f)
{
  const int n = vc_size("n", lo, 100);
  Module_s m;
  Children c = attach(m, n);
  f(m, c, n);
  vc_stop();
}
// largest / smallest of g(0..n-1), 0 for no children
template <class G> double largest(int n, G g) { return n == 0 ? 0 : vc_fold(n - 1, g(0), [&](double a, int i) { return std::max(a, g(i + 1)); }); }
template <class G> double smallest(int n, G g) { return n == 0 ? 0 : vc_fold(n - 1, g(0), [&](double a, int i) { return std::min(a, g(i + 1)); }); }
extern "C" void contract_series_Vmin()
{
  with_series(0, [](Module_s &m, Children &c, int n) { vc_ensure_eq("series-Vmin-is-sum", m.Vmin(), vc_sum(n, [&](int i) { return c[i].cVmin; })); });
}
extern "C" void contract_series_VMIN()
{
  with_series(0, [](Module_s &m, Children &c, int n) { vc_ensure_eq("series-VMIN-is-sum", m.VMIN(), vc_sum(n, [&](int i) { return c[i].cVMIN; })); });
}
extern "C" void contract_series_Vmax()
{
  with_series(0, [](Module_s &m, Children &c, int n) { vc_ensure_eq("series-Vmax-is-sum", m.Vmax(), vc_sum(n, [&](int i) { return c[i].cVmax; })); });
}
extern "C" void contract_series_VMAX()
{
  with_series(0, [](Module_s &m, Children &c, int n) { vc_ensure_eq("series-VMAX-is-sum", m.VMAX(), vc_sum(n, [&](int i) { return c[i].cVMAX; })); });
}
extern "C" void contract_series_OCV()
{
  with_series(0, [](Module_s &m, Children &c, int n) { vc_ensure_eq("series-OCV-is-sum", m.getOCV(), vc_sum(n, [&](int i) { return c[i].cOCV; })); });
}
extern "C" void contract_series_Rtot()
{
  with_series(0, [](Module_s &m, Children &c, int n) { vc_ensure_eq("series-Rtot-is-sum", m.getRtot(), vc_sum(n, [&](int i) { return c[i].cRtot + m.Rcontact[i]; })); });
}
extern "C" void contract_series_current()
{
  with_series(0, [](Module_s &m, Children &c, int n) {
    vc_ensure_eq("series-current-is-child-current", m.I(), n == 0 ? 0 : c[0].cI);
    const double cap = m.Cap();
    vc_ensure_eq("series-capacity-is-smallest", cap, smallest(n, [&](int i) { return c[i].cCap; }));
  });
}
double Vsum(Module_s &m, Children &c, int n)
{
  return vc_sum(n, [&](int i) { return SpecSU::Vspec(i, c[i].cI, c[i].ver) - m.Rcontact[i] * c[i].cI; });
}
extern "C" void contract_series_V()
{
  with_series(0, [](Module_s &m, Children &c, int n) {
    m.Vmodule_valid = false;
    vc_assume_all(n, [&](int i) { return SpecSU::Vspec(i, c[i].cI, c[i].ver) > 0; });
    vc_ensure_eq("series-V-is-sum-less-contact-drops", m.V(), Vsum(m, c, n));
    vc_ensure_eq("repeated-V-is-the-same", m.V(), Vsum(m, c, n));
  });
}
// a child without a valid voltage makes the module voltage invalid (0), and that is not remembered
extern "C" void contract_series_V_invalid()
{
  with_series(1, [](Module_s &m, Children &c, int n) {
    const int k = vc_int("bad", 0, 99);
    vc_assume(k < n);
    m.Vmodule_valid = false;
    spec_dead = k;
    vc_assume(SpecSU::Vspec(k, c[k].cI, c[k].ver) <= 0);
    vc_ensure_eq("invalid-child-gives-zero", m.V(), 0);
    vc_ensure_eq("invalid-child-gives-zero-again", m.V(), 0);
    c[k].ver = 1; // the child recovers
    spec_dead = -1;
    vc_assume_all(n, [&](int i) { return SpecSU::Vspec(i, c[i].cI, c[i].ver) > 0; });
    vc_ensure_eq("invalid-voltage-not-cached", m.V(), vc_sum(n, [&](int i) { return SpecSU::Vspec(i, c[i].cI, c[i].ver) - m.Rcontact[i] * c[i].cI; }));
  });
}
extern "C" void contract_series_V_after_current()
{
  with_series(0, [](Module_s &m, Children &c, int n) {
    m.Vmodule_valid = vc_bool("valid");
    m.Vmodule = vc_real_in("cached", -1e3, 1e3);
    const double Inew = vc_real_in("Inew", -50, 50);
    m.setCurrent(Inew, false, false);
    vc_assume_all(n, [&](int i) { return SpecSU::Vspec(i, Inew, c[i].ver) > 0; });
    vc_ensure_eq("V-follows-a-new-current", m.V(), vc_sum(n, [&](int i) { return SpecSU::Vspec(i, Inew, 0) - m.Rcontact[i] * Inew; }));
  });
}
extern "C" void contract_series_V_after_contact()
{
  with_series(0, [](Module_s &m, Children &c, int n) {
    m.Vmodule_valid = vc_bool("valid");
    m.Vmodule = vc_real_in("cached", -1e3, 1e3);
    double *r = vc_array("Rnew", n);
    std::span<double> sp(r, n);
    m.setRcontact(sp);
    vc_ensure_all("contact-resistances-are-set", n, [&](int i) { return m.Rcontact[i] == r[i]; });
    vc_assume_all(n, [&](int i) { return SpecSU::Vspec(i, c[i].cI, c[i].ver) > 0; });
    vc_ensure_eq("V-follows-new-contact-resistances", m.V(), vc_sum(n, [&](int i) { return SpecSU::Vspec(i, c[i].I0, 0) - r[i] * c[i].I0; }));
  });
}
