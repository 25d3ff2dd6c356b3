//@opt algebra=1
#include "_spm.hpp"
extern "C" void contract_voltage_law()
{
  Spm c;
  spm_any(c);
  const auto before = c.st;
  const double v = c.V();
  if (spm_in_range(c)) {
    vc_ensure_eq("V-is-the-single-particle-voltage", v, spm_V(c));
    vc_cover("in range");
  } else {
    vc_ensure_eq("V-is-zero-outside-the-concentration-limits", v, 0.0);
    vc_cover("out of range");
  }
  for (size_t i = 0; i < c.st.size(); i++) if (i != 1) vc_ensure("V-does-not-change-state", c.st[i] == before[i]);
  vc_ensure_eq("V-is-repeatable", c.V(), v);
}
extern "C" void contract_ocv_and_resistance()
{
  Spm c;
  spm_any(c);
  const auto before = c.st;
  vc_ensure_eq("resistance-is-the-sum-of-its-parts", c.getRdc(), spm_Rdc(c));
  vc_ensure_eq("Rtot-is-the-resistance", c.getRtot(), spm_Rdc(c));
  double cp, cn;
  const bool ok = c.getCSurf(cp, cn, true);
  vc_ensure_eq("surface-concentration-positive", cp, spm_cp(c, 0));
  vc_ensure_eq("surface-concentration-negative", cn, spm_cn(c, 0));
  vc_ensure("surface-concentration-flag", ok == spm_in_range(c));
  for (size_t i = 0; i < c.st.size(); i++) vc_ensure("getters-do-not-change-state", c.st[i] == before[i]);
  vc_assume(ok);
  vc_ensure_eq("OCV-law", c.getOCV(), spm_OCV(c));
}
extern "C" void contract_concentrations()
{
  Spm c;
  spm_any(c);
  const auto before = c.st;
  double cp[7], cn[7], sp = 0, sn = 0;
  c.getC(cp, cn);
  for (int i = 0; i < 6; i++) {
    vc_ensure_eq("concentration-at-a-node-positive", cp[i], spm_cp(c, i));
    vc_ensure_eq("concentration-at-a-node-negative", cn[i], spm_cn(c, i));
    sp += c.M->Cc[i] * spm_cp(c, i);
    sn += c.M->Cc[i] * spm_cn(c, i);
  }
  vc_ensure_eq("concentration-at-the-centre-positive", cp[6], -(sp + spm_jp(c) * c.geo.Rp / spm_arrhenius(c, c.st.Dp(), c.Dp_T)) / 2);
  vc_ensure_eq("concentration-at-the-centre-negative", cn[6], -(sn + spm_jn(c) * c.geo.Rn / spm_arrhenius(c, c.st.Dn(), c.Dn_T)) / 2);
  for (size_t i = 0; i < c.st.size(); i++) vc_ensure("getters-do-not-change-state", c.st[i] == before[i]);
}
// whatever changed the cell, the voltage reported afterwards is the voltage of the present state
template <class F> void after(F f)
{
  Spm c;
  spm_any(c);
  if (vc_bool("voltage was read before")) vc_assume(c.V() != 0);
  f(c);
  vc_assume(spm_in_range(c));
  vc_ensure_eq("V-is-the-voltage-of-the-present-state", c.V(), spm_V(c));
}
static void any_eigenvalue(Cell_SPM &c) // position of the zero eigenvalue
{
  const int k = vc_int("eigenvalue", 0, 4);
  for (int i = 0; i < 5; i++) if (k == i) c.M->Input[3] = i;
}
extern "C" void contract_V_after_setCurrent() { after([](Cell_SPM &c) { c.setCurrent(vc_real_in("Inew", -2, 2), true); }); }
extern "C" void contract_V_after_setCurrent_nocheck() { after([](Cell_SPM &c) { c.setCurrent(vc_real_in("Inew", -2, 2), false); }); }
extern "C" void contract_V_after_setSOC() { after([](Cell_SPM &c) { c.setSOC(vc_real_in("SOCnew", -0.5, 1.5), true); }); }
extern "C" void contract_V_after_setT() { after([](Cell_SPM &c) { c.setT(vc_real_in("Tnew", 200, 400)); }); }
extern "C" void contract_V_after_setTenv() { after([](Cell_SPM &c) { try { c.setTenv(vc_real_in("Tnew", 200, 400)); } catch (int) {} }); }
extern "C" void contract_V_after_setStateObj() { after([](Cell_SPM &c) { State_SPM s; spm_state(s); c.setStateObj(s); }); }
extern "C" void contract_V_after_setC()
{
  after([](Cell_SPM &c) {
    any_eigenvalue(c);
    try { c.setC(vc_real_in("fp", -0.5, 1.5), vc_real_in("fn", -0.5, 1.5)); } catch (int) {}
  });
}
extern "C" void contract_V_after_setInitialConcentration()
{
  after([](Cell_SPM &c) {
    any_eigenvalue(c);
    try { c.setInitialConcentration(vc_real_in("cmaxp", 0.5, 2), vc_real_in("cmaxn", 0.5, 2), vc_real_in("fp", -0.5, 1.5), vc_real_in("fn", -0.5, 1.5)); } catch (int) {}
  });
}
extern "C" void contract_V_after_overwriting()
{
  after([](Cell_SPM &c) {
    const double a = vc_real_in("a", 0.1, 2), b = vc_real_in("b", 0.1, 2), d = vc_real_in("d", 0.1, 1), e = vc_real_in("e", 0.1, 1);
    switch (vc_int("which", 0, 3)) {
    case 0: c.overwriteCharacterisationStates(a, b, d); break;
    case 1: c.overwriteGeometricStates(a, b, d, e, vc_real_in("f", 0.1, 2), vc_real_in("g", 0.1, 2)); break;
    case 2: c.setGeometricParameters(vc_real_in("f", 0.1, 2), vc_real_in("g", 0.1, 2), d, e, a, b); break;
    case 3: c.setCharacterisationParam(a, b, vc_real_in("f", 1e-6, 1e-4), vc_real_in("g", 1e-6, 1e-4), d); break;
    }
  });
}
//@redirect[contract_V_after_step.*] slide::Cell_SPM::dState_degradation\(.* => callee_degradation
//@redirect[contract_V_after_step.*] slide::Cell_SPM::dState_thermal\(.* => callee_thermal
extern "C" void callee_degradation(Cell_SPM *, bool, State_SPM &d)
{
  for (size_t i = 2; i < 32; i++) d[i] = vc_real_in("rate", -1e-3, 1e-3);
}
extern "C" void callee_thermal(Cell_SPM *, bool, double &q) { q = vc_real_in("heat", -1, 1); }
static void step(Cell_SPM &c)
{
  const double dt = vc_real_in("dt", 0, 1);
  try { c.timeStep_CC(dt, 1); } catch (int) {}
}
extern "C" void contract_V_after_step() { after([](Cell_SPM &c) { c.setBlockDegAndTherm(vc_bool("blocked")); step(c); }); }
