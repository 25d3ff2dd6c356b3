#pragma once
#include "vc.hpp"
#include "slide.hpp"
#include "cells/Cell_SPM/Cell_SPM.cpp"
#include "cells/Cell_SPM/Cell_SPM_diffusion.cpp"
#include "cells/Cell_SPM/Cell_SPM_dstate.cpp"
#include "cells/Cell_SPM/Cell_SPM_degradation.cpp"
#include "cells/Cell_SPM/Cell_SPM_thermal.cpp"
#include "cells/Cell_SPM/Cell_SPM_fitting.cpp"
#include "_status.hpp"
using namespace slide;
// The four tabulated curves enter through the contract of the interpolation (proved in C04): some function of the lithium
// fraction on [0,1] (one function per curve), exception 1 outside.
//@redirect slide::XYdata<std::span<double.*>::interp\(double, bool, bool\) => callee_curve
static OCVcurves *g_curves;
extern "C" double callee_curve(XYdata_ss *c, double x, bool print, bool bound)
{
  if (bound && (x < 0 || x > 1)) throw 1;
  if (c == &g_curves->OCV_pos) return vc_uf1("OCV_pos", x);
  if (c == &g_curves->OCV_neg) return vc_uf1("OCV_neg", x);
  if (c == &g_curves->dOCV_neg) return vc_uf1("dOCV_neg", x);
  return vc_uf1("dOCV_tot", x);
}
struct Spm : Cell_SPM
{
  Spm() : Cell_SPM(static_cast<Model_SPM *>(::operator new(sizeof(Model_SPM)))) {}
};
inline void spm_curves(OCVcurves &o)
{
  g_curves = &o;
#ifndef VC_SYMBOLIC
  static double xs[2] = { 0, 1 }, y[4][2];
  XYdata_ss *cs[4] = { &o.OCV_pos, &o.OCV_neg, &o.dOCV_neg, &o.dOCV_tot };
  for (int i = 0; i < 4; i++) {
    for (int k = 0; k < 2; k++) y[i][k] = i == 0 ? vc_real_in("curve", 2.5, 6) : i == 1 ? vc_real_in("curve", 0, 1) : vc_real_in("curve", -1e-2, 1e-2);
    cs[i]->x = std::span<double>(xs, 2);
    cs[i]->y = std::span<double>(y[i], 2);
  }
#endif
}
inline void spm_state(State_SPM &s)
{
  s.I() = vc_real_in("I", -2, 2);
  s.V() = vc_real_in("Vold", -5, 5);
  s.T() = vc_real_in("T", 200, 400);
  s.delta() = vc_real_in("delta", 0.01, 1);
  s.LLI() = vc_real_in("LLI", 0, 10);
  s.thickp() = vc_real_in("thickp", 0.1, 2);
  s.thickn() = vc_real_in("thickn", 0.1, 2);
  s.ep() = vc_real_in("ep", 0.1, 1);
  s.en() = vc_real_in("en", 0.1, 1);
  s.ap() = vc_real_in("ap", 0.1, 2);
  s.an() = vc_real_in("an", 0.1, 2);
  s.CS() = vc_real_in("CS", 0, 2);
  s.Dp() = vc_real_in("Dp", 1e-6, 1e-4);
  s.Dn() = vc_real_in("Dn", 1e-6, 1e-4);
  s.delta_pl() = vc_real_in("delta_pl", 0, 1);
  for (size_t i = 0; i < 5; i++) s.zp(i) = vc_real_in("zp", -0.1, 0.6);
  for (size_t i = 0; i < 5; i++) s.zn(i) = vc_real_in("zn", -0.1, 0.6);
  s.rDCp() = vc_real_in("rDCp", 0, 0.1);
  s.rDCn() = vc_real_in("rDCn", 0, 0.1);
  s.rDCcc() = vc_real_in("rDCcc", 0, 0.1);
  s.SOC() = vc_real_in("SOC", -0.5, 1.5);
  s.time() = vc_real_in("time", 0, 1e6);
  s.Ah() = vc_real_in("Ah", 0, 1e6);
  s.Wh() = vc_real_in("Wh", 0, 1e6);
}
// An arbitrary single particle cell: any parameters, any discretisation of the diffusion equation, any state.
inline void spm_any(Cell_SPM &c)
{
  spm_curves(c.OCV_curves);
  spm_state(c.st);
  c.capNom = vc_real_in("cap", 0.1, 100);
  c.Cmaxpos = vc_real_in("Cmaxpos", 0.5, 2);
  c.Cmaxneg = vc_real_in("Cmaxneg", 0.5, 2);
  c.C_elec = vc_real_in("C_elec", 0.5, 2);
  c.n = vc_real_in("n", 1, 2);
  c.kp = vc_real_in("kp", 1e-6, 1e-4);
  c.kn = vc_real_in("kn", 1e-6, 1e-4);
  c.kp_T = vc_real_in("kp_T", 0, 2e4);
  c.kn_T = vc_real_in("kn_T", 0, 2e4);
  c.Dp_T = vc_real_in("Dp_T", 0, 2e4);
  c.Dn_T = vc_real_in("Dn_T", 0, 2e4);
  c.T_env = vc_real_in("T_env", 273, 333);
  c.T_ref = vc_real_in("T_ref", 273, 333);
  c.Qch = vc_real_in("Qch", 0, 2);
  c.rho = vc_real_in("rho", 0.5, 2);
  c.Cp = vc_real_in("Cp", 0.5, 2);
  c.Therm_Qgen = vc_real_in("Therm_Qgen", -2, 2);
  c.Therm_Qgentot = vc_real_in("Therm_Qgentot", -2, 2);
  c.Therm_time = vc_real_in("Therm_time", 0, 2);
  c.geo.L = vc_real_in("L", 0.5, 2);
  c.geo.elec_surf = vc_real_in("elec_surf", 0.5, 2);
  c.geo.SAV = vc_real_in("SAV", 0.5, 2);
  c.geo.Rp = vc_real_in("Rp", 0.5, 2);
  c.geo.Rn = vc_real_in("Rn", 0.5, 2);
  c.rsei = vc_real_in("rsei", 0, 0.1);
  auto &m = *c.M;
  for (size_t i = 0; i < 5; i++) {
    m.xch[i] = vc_real_in("xch", 0, 1);
    m.Ap[i] = vc_real_in("MAp", -2, 0);
    m.An[i] = vc_real_in("MAn", -2, 0);
    m.Bp[i] = vc_real_in("MBp", -2, 2);
    m.Bn[i] = vc_real_in("MBn", -2, 2);
    for (size_t j = 0; j < 5; j++) {
      m.Vp[i][j] = vc_real_in("MVp", -2, 2);
      m.Vn[i][j] = vc_real_in("MVn", -2, 2);
    }
  }
  for (size_t i = 0; i < 6; i++) {
    for (size_t j = 0; j < 5; j++) {
      m.Cp[i][j] = vc_real_in("MCp", 0, 1);
      m.Cn[i][j] = vc_real_in("MCn", 0, 1);
    }
    m.Cc[i] = vc_real_in("MCc", -2, 2);
    m.Dp[i] = vc_real_in("MDp", -2, 2);
    m.Dn[i] = vc_real_in("MDn", -2, 2);
  }
  c.Vcell_valid = false;
}
// ---------------------------------------------------------------- the specification
inline double spm_arrhenius(Cell_SPM &c, double x, double Ea) { return x * std::exp(Ea * ((1 / c.T_ref - 1 / c.st.T()) / 8.314)); }
inline double spm_jp(Cell_SPM &c) { return -c.st.I() / (c.geo.elec_surf * c.st.thickp() * c.st.ap() * c.n * 96487); }
inline double spm_jn(Cell_SPM &c) { return c.st.I() / (c.geo.elec_surf * c.st.thickn() * c.st.an() * c.n * 96487); }
inline double spm_cp(Cell_SPM &c, int node) // concentration at a node of the positive particle (0: surface)
{
  double x = c.M->Dp[node] * spm_jp(c) / spm_arrhenius(c, c.st.Dp(), c.Dp_T);
  for (int j = 0; j < 5; j++) x += c.M->Cp[node][j] * c.st.zp(j);
  return x;
}
inline double spm_cn(Cell_SPM &c, int node)
{
  double x = c.M->Dn[node] * spm_jn(c) / spm_arrhenius(c, c.st.Dn(), c.Dn_T);
  for (int j = 0; j < 5; j++) x += c.M->Cn[node][j] * c.st.zn(j);
  return x;
}
inline bool spm_in_range(Cell_SPM &c)
{
  const double p = spm_cp(c, 0), n = spm_cn(c, 0);
  return vc_and(vc_and(0 < p, p < c.Cmaxpos), vc_and(0 < n, n < c.Cmaxneg));
}
inline double spm_Rdc(Cell_SPM &c)
{
  return (c.st.rDCcc() + (c.st.delta() * c.rsei + c.st.rDCn()) / (c.st.an() * c.st.thickn()) + c.st.rDCp() / (c.st.ap() * c.st.thickp())) / c.geo.elec_surf;
}
inline double spm_eta(Cell_SPM &c, double k, double conc, double cmax, double j) // Butler-Volmer with symmetric transfer, inverted
{
  const double i0 = k * c.n * 96487 * std::sqrt(c.C_elec * conc * (cmax - conc));
  return 2 * 8.314 * c.st.T() / (c.n * 96487) * std::asinh(j * c.n * 96487 / (2 * i0));
}
inline double spm_etap(Cell_SPM &c) { return spm_eta(c, spm_arrhenius(c, c.kp, c.kp_T), spm_cp(c, 0), c.Cmaxpos, spm_jp(c)); }
inline double spm_etan(Cell_SPM &c) { return spm_eta(c, spm_arrhenius(c, c.kn, c.kn_T), spm_cn(c, 0), c.Cmaxneg, spm_jn(c)); }
inline double spm_OCV(Cell_SPM &c) // inside the concentration limits
{
  const double zp = spm_cp(c, 0) / c.Cmaxpos, zn = spm_cn(c, 0) / c.Cmaxneg;
  auto &o = c.OCV_curves;
  return o.OCV_pos.interp(zp, false, true) - o.OCV_neg.interp(zn, false, true) + (c.st.T() - c.T_ref) * o.dOCV_tot.interp(zp, false, true);
}
inline double spm_V(Cell_SPM &c) { return spm_OCV(c) + spm_etap(c) - spm_etan(c) - spm_Rdc(c) * c.st.I(); }
