#include "_module.hpp"
// a default-constructed vector with spare capacity: growth of std::vector is the library's business
//@trusted std::vector growth (reallocation) is skipped: vectors start with spare capacity
//@redirect std::vector<double, std::allocator<double> >::vector\(\) => callee_vec
extern "C" void callee_vec(double **raw)
{
  raw[0] = raw[1] = static_cast<double *>(operator new(8000000));
  raw[2] = raw[0] + 1000000;
}
extern "C" void contract_getStates()
{
  const int n = vc_size("n", 0, 100);
  Module_s m;
  Children c = attach(m, n);
  CoolSystem cool;
  cool.Tcoolant = vc_real_in("T", 273, 340);
  m.cool = Deep_ptr<CoolSystem>(&cool);
  std::vector<double> s;
  m.getStates(s);
  vc_ensure("states-length", s.size() == static_cast<size_t>(2 * n + 1));
  vc_ensure_all("child-states-in-order", n, [&](int i) { return vc_and(s[2 * i] == c[i].cI, s[2 * i + 1] == c[i].ver); });
  vc_ensure("module-temperature-last", s[2 * n] == cool.Tcoolant);
  vc_stop();
}
extern "C" void contract_setStates()
{
  const int n = vc_size("n", 0, 100);
  Module_s m;
  Children c = attach(m, n);
  CoolSystem cool;
  cool.Tcoolant = vc_real_in("T", 273, 340);
  m.cool = Deep_ptr<CoolSystem>(&cool);
  m.Vmodule_valid = vc_bool("valid");
  double *s = vc_array("s", 2 * n + 1);
  vc_assume(273 <= s[2 * n] && s[2 * n] <= 340);
  std::span<double> sp(s, 2 * n + 1);
  const double T0 = cool.Tcoolant;
  const bool check = vc_bool("check");
  const Status r = m.setStates(sp, check, false);
  if (static_cast<int>(r) >= 3) {
    vc_cover("rejected");
    vc_ensure_all("rejected-states-leave-children", n, [&](int i) { return vc_and(vc_eq(c[i].cI, c[i].I0), vc_eq(c[i].ver, 0)); });
    vc_ensure_eq("rejected-states-leave-temperature", cool.Tcoolant, T0);
  } else {
    vc_cover("accepted");
    vc_ensure_all("accepted-states-reach-every-child", n, [&](int i) { return vc_and(vc_eq(c[i].cI, s[2 * i]), vc_eq(c[i].ver, s[2 * i + 1])); });
    vc_ensure_eq("accepted-temperature-is-set", cool.Tcoolant, s[2 * n]);
    vc_ensure("all-states-consumed", sp.size() == 0);
  }
  vc_ensure("cached-voltage-dropped", !m.Vmodule_valid);
  vc_stop();
}
// connecting children
template <class F> void linking(F f)
{
  const int n = vc_size("n", 0, 100);
  Module_s m, other;
  m.Vmodule_valid = vc_bool("valid");
  Children c{ static_cast<SpecSU *>(vc_family(n, sizeof(SpecSU), make_child)), n };
#ifdef VC_SYMBOLIC
  StorageUnit **p = static_cast<StorageUnit **>(vc_ptr_array(c.c, sizeof(SpecSU), n));
  auto spare = [](auto &v, size_t z) { char **r = reinterpret_cast<char **>(&v); r[0] = r[1] = static_cast<char *>(operator new(200 * z)); r[2] = r[0] + 200 * z; };
  spare(m.SUs, sizeof(void *));
  spare(m.Rcontact, sizeof(double));
  std::span<Module::SU_t> sp(reinterpret_cast<Module::SU_t *>(p), n);
#else
  std::vector<Module::SU_t> v;
  for (int i = 0; i < n; i++) v.push_back(Module::SU_t(&c.c[i]));
  std::span<Module::SU_t> sp(v);
#endif
  f(m, other, c, sp, n);
  vc_stop();
}
extern "C" void contract_setSUs()
{
  linking([](Module_s &m, Module_s &, Children &c, std::span<Module::SU_t> sp, int n) {
    m.setSUs(sp, true, false);
    vc_ensure("every-child-is-adopted", m.SUs.size() == static_cast<size_t>(n) && m.Rcontact.size() == static_cast<size_t>(n));
    vc_ensure_all("children-in-order-with-this-parent", n, [&](int i) { return vc_and(m.SUs[i].get() == &c[i], c[i].parent == &m); });
    vc_ensure_all("contact-resistances-reset", n, [&](int i) { return m.Rcontact[i] == 0; });
    vc_ensure_eq("cell-count-is-sum", m.getNcells(), vc_sum(n, [&](int i) { return c[i].cCells; }));
    vc_ensure("adoption-drops-cached-voltage", !m.Vmodule_valid);
  });
}
extern "C" void contract_setSUs_rejected()
{
  linking([](Module_s &m, Module_s &other, Children &c, std::span<Module::SU_t> sp, int n) {
    const int k = vc_int("k", 0, 99);
    vc_assume(k < n);
    c[k].parent = &other;
    bool thrown = false;
    try {
      m.setSUs(sp, true, false);
    } catch (int e) { thrown = e == 10; }
    vc_ensure("foreign-child-is-refused", thrown);
    vc_ensure("refusal-adopts-nothing", m.SUs.size() == 0);
    vc_ensure_all("refusal-leaves-parents", n, [&](int i) { return c[i].parent == (i == k ? static_cast<StorageUnit *>(&other) : nullptr); });
  });
}
