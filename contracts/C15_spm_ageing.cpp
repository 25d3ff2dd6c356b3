//@opt merge=1 algebra=1
#include "_spm.hpp"
// Contract of getC (proved in C12): the concentrations at the nodes are functions of the state, which it leaves.
//@redirect[.*(surface_cracks|Dai_stress)] slide::Cell_SPM::getC\(.* => callee_getC
static double g_cp[7], g_cn[7];
extern "C" void callee_getC(Cell_SPM *, double *cp, double *cn)
{
  for (int i = 0; i < 7; i++) {
    cp[i] = g_cp[i];
    cn[i] = g_cn[i];
  }
}
static void any_concentrations(Cell_SPM &c)
{
#ifdef VC_SYMBOLIC
  for (int i = 0; i < 7; i++) {
    g_cp[i] = vc_real_in("cp", 0, 2);
    g_cn[i] = vc_real_in("cn", 0, 2);
  }
#else
  c.getC(g_cp, g_cn);
#endif
}
// Every list of models is an array of ten identifiers 0..max, which covers every shorter list (0 stands for no model).
template <class V> static void any_ids(V &l, int (&id)[10], const char *nm, int max)
{
  l.N = 10;
  for (int i = 0; i < 10; i++) l.data[i] = id[i] = vc_int(nm, 0, max);
}
template <class V> static void one_id(V &l, int id)
{
  l.N = 1;
  l.data[0] = id;
}
static void any_ageing(Cell_SPM &c)
{
  spm_any(c);
  c.nsei = vc_real_in("nsei", 0.5, 2);
  c.alphasei = vc_real_in("alphasei", 0.5, 2);
  c.OCVsei = vc_real_in("OCVsei", 0, 1);
  c.rhosei = vc_real_in("rhosei", 0.5, 2);
  c.c_elec0 = vc_real_in("c_elec0", 0, 2);
  c.Vmain = vc_real_in("Vmain", 0, 2);
  c.Vsei = vc_real_in("Vsei", 0, 2);
  c.npl = vc_real_in("npl", 0.5, 2);
  c.alphapl = vc_real_in("alphapl", 0.5, 2);
  c.OCVpl = vc_real_in("OCVpl", -0.1, 0.1);
  c.rhopl = vc_real_in("rhopl", 0.5, 2);
  c.OCVnmc = vc_real_in("OCVnmc", 3, 5);
  c.pl_p.pl1k = vc_real_in("pl1k", 1e-6, 1e-4);
  c.pl_p.pl1k_T = vc_real_in("pl1k_T", 0, 2e4);
  auto &p = c.sei_p;
  p.sei1k = vc_real_in("sei1k", 1e-6, 1e-4);
  p.sei1k_T = vc_real_in("sei1k_T", 0, 2e4);
  p.sei2k = vc_real_in("sei2k", 1e-6, 1e-4);
  p.sei2k_T = vc_real_in("sei2k_T", 0, 2e4);
  p.sei2D = vc_real_in("sei2D", 1e-6, 1e-4);
  p.sei2D_T = vc_real_in("sei2D_T", 0, 2e4);
  p.sei3k = vc_real_in("sei3k", 1e-6, 1e-4);
  p.sei3k_T = vc_real_in("sei3k_T", 0, 2e4);
  p.sei3D = vc_real_in("sei3D", 1e-6, 1e-4);
  p.sei3D_T = vc_real_in("sei3D_T", 0, 2e4);
  p.sei4k = vc_real_in("sei4k", 1e-6, 1e-4);
  p.sei4k_T = vc_real_in("sei4k_T", 0, 2e4);
  p.sei4D = vc_real_in("sei4D", 1e-6, 1e-4);
  p.sei4D_T = vc_real_in("sei4D_T", 0, 2e4);
  p.sei_porosity = vc_real_in("sei_porosity", 0, 1);
  auto &q = c.csparam;
  q.CS1alpha = vc_real_in("CS1alpha", 0, 1);
  q.CS2alpha = vc_real_in("CS2alpha", 0, 1);
  q.CS3alpha = vc_real_in("CS3alpha", 0, 1);
  q.CS4alpha = vc_real_in("CS4alpha", 0, 1);
  q.CS4Amax = vc_real_in("CS4Amax", 0.5, 2);
  q.CS5k = vc_real_in("CS5k", 0, 1);
  q.CS5k_T = vc_real_in("CS5k_T", 0, 2e4);
  q.CS_diffusion = vc_real_in("CS_diffusion", 1e-8, 1e-6);
  auto &l = c.lam_p;
  l.lam1p = vc_real_in("lam1p", 0, 1);
  l.lam1n = vc_real_in("lam1n", 0, 1);
  l.lam2ap = vc_real_in("lam2ap", 0, 1);
  l.lam2an = vc_real_in("lam2an", 0, 1);
  l.lam2bp = vc_real_in("lam2bp", 0, 1);
  l.lam2bn = vc_real_in("lam2bn", 0, 1);
  l.lam2t = vc_real_in("lam2t", 0, 2e4);
  l.lam3k = vc_real_in("lam3k", 1e-6, 1e-4);
  l.lam3k_T = vc_real_in("lam3k_T", 0, 2e4);
  l.lam4p = vc_real_in("lam4p", 0, 1);
  l.lam4n = vc_real_in("lam4n", 0, 1);
  auto &s = c.sparam;
  s.s_dai_update = s.s_lares_update = true;
  s.s_dai_p = vc_real_in("s_dai_p", -1, 1);
  s.s_dai_n = vc_real_in("s_dai_n", -1, 1);
  s.s_lares_n = vc_real_in("s_lares_n", -1, 1);
  s.s_dai_p_prev = vc_real_in("s_dai_p_prev", -1, 1);
  s.s_dai_n_prev = vc_real_in("s_dai_n_prev", -1, 1);
  s.s_lares_n_prev = vc_real_in("s_lares_n_prev", -1, 1);
  s.s_dt = vc_real_in("s_dt", 0.01, 2);
  s.omegap = vc_real_in("omegap", 0.5, 2);
  s.omegan = vc_real_in("omegan", 0.5, 2);
  s.Ep = vc_real_in("Ep", 0.5, 2);
  s.En = vc_real_in("En", 0.5, 2);
  s.nup = vc_real_in("nup", 0.1, 0.5);
  s.nun = vc_real_in("nun", 0.1, 0.5);
}
static double tafel(Cell_SPM &c, double ne, double alpha, double eta) { return std::exp(-(ne * 96487 / (8.314 * c.st.T()) * alpha * eta)); }
static double film(Cell_SPM &c) { return c.rsei * c.st.delta() * c.st.I(); }
// ---------------------------------------------------------------- growth of the SEI layer
static double sei_model(Cell_SPM &c, int id, double OCVnt, double etan)
{
  auto &p = c.sei_p;
  const double neF = c.nsei * 96487;
  if (id == 1) return neF * spm_arrhenius(c, p.sei1k, p.sei1k_T) * tafel(c, c.nsei, c.alphasei, OCVnt + etan - c.OCVsei + film(c));
  if (id == 2) {
    const double kin = neF * spm_arrhenius(c, p.sei2k, p.sei2k_T) * tafel(c, c.nsei, c.alphasei, OCVnt + etan - c.OCVsei + film(c));
    return c.c_elec0 / (1 / kin + c.st.delta() / (neF * spm_arrhenius(c, p.sei2D, p.sei2D_T)));
  }
  if (id == 3) {
    const double kin = neF * spm_arrhenius(c, p.sei3k, p.sei3k_T) * tafel(c, c.nsei, c.alphasei, OCVnt - c.OCVsei);
    return 0.134461 * tafel(c, c.nsei, 1, etan + film(c)) / (1 / kin + c.st.delta() / (neF * spm_arrhenius(c, p.sei3D, p.sei3D_T)));
  }
  if (id == 4) {
    const double kin = neF * spm_arrhenius(c, p.sei4k, p.sei4k_T) * tafel(c, c.nsei, c.alphasei, OCVnt - c.OCVsei);
    return 0.134461 * tafel(c, c.nsei, 1, etan) / (1 / kin + c.st.delta() / (neF * spm_arrhenius(c, p.sei4D, p.sei4D_T)));
  }
  return 0;
}
extern "C" void contract_SEI_growth()
{
  Spm c;
  any_ageing(c);
  int id[10];
  any_ids(c.deg_id.SEI_id, id, "SEI model", 4);
  const bool por = vc_bool("porosity");
  c.deg_id.SEI_porosity = por;
  const double OCVnt = vc_real_in("OCVnt", -1, 1), etan = vc_real_in("etan", -0.1, 0.1);
  double isei = 7, den = 7;
  const auto s0 = c.st;
  c.SEI(OCVnt, etan, &isei, &den);
  double sum = 0;
  for (int i = 0; i < 10; i++) sum += sei_model(c, id[i], OCVnt, etan);
  vc_ensure_eq("SEI-current-is-the-sum-of-the-models", isei, sum);
  vc_ensure_eq("SEI-porosity", den, por ? -c.sei_p.sei_porosity * (spm_jn(c) * c.Vmain + isei * c.Vsei) : 0.0);
  vc_ensure("models-leave-the-state", c.st == s0);
}
// ---------------------------------------------------------------- surface cracks
static double crack_model(Cell_SPM &c, int id, double OCVnt, double etan)
{
  auto &p = c.csparam;
  auto &s = c.sparam;
  if (id == 1) return p.CS1alpha * std::sqrt(std::abs(s.s_lares_n - s.s_lares_n_prev) / s.s_dt);
  if (id == 2) return p.CS2alpha * std::sqrt(std::abs(s.s_dai_n - s.s_dai_n_prev) / s.s_dt);
  if (id == 3) {
    const double d = (g_cn[0] - g_cn[6]) / c.Cmaxneg;
    return p.CS3alpha * (d * d);
  }
  if (id == 4) return p.CS4alpha * (std::max(p.CS4Amax, c.st.CS()) - c.st.CS()) * std::abs(c.st.I());
  if (id == 5) {
    const double z = spm_cn(c, 0) / c.Cmaxneg, k = spm_arrhenius(c, p.CS5k, p.CS5k_T);
    const double kcr = c.st.I() > 0 ? 0 : z < 0.3 ? 2 * k : z < 0.7 ? 0 : k;
    return c.nsei * 96487 * kcr * tafel(c, c.nsei, c.alphasei, OCVnt + etan - c.OCVsei + film(c));
  }
  return 0;
}
extern "C" void contract_surface_cracks()
{
  Spm c;
  any_ageing(c);
  int id[10];
  any_ids(c.deg_id.CS_id, id, "crack model", 5);
  any_concentrations(c);
  const bool diff = vc_bool("crack diffusion");
  c.deg_id.CS_diffusion = diff;
  const double OCVnt = vc_real_in("OCVnt", -1, 1), etan = vc_real_in("etan", -0.1, 0.1);
  double ism = 7, dCS = 7, dDn = 7;
  const auto s0 = c.st;
  c.CS(OCVnt, etan, &ism, &dCS, &dDn);
  double sum = 0, mult = 0;
  for (int i = 0; i < 10; i++) sum += crack_model(c, id[i], OCVnt, etan);
  for (int i = 0; i < 10; i++) mult += id[i] == 0 ? 0 : c.st.CS() / (c.geo.elec_surf * c.st.thickn() * c.st.an());
  vc_ensure_eq("crack-growth-is-the-sum-of-the-models", dCS, sum);
  vc_ensure_eq("SEI-grows-on-the-cracks", ism, mult);
  const double Amax = std::max(c.csparam.CS4Amax, c.st.CS());
  vc_ensure_eq("cracks-slow-diffusion", dDn, diff ? -std::min(2e-7, c.csparam.CS_diffusion * std::pow(1 - c.st.CS() / Amax, c.csparam.CS_diffusion - 1) / Amax * dCS) * c.st.Dn() : 0.0);
  vc_ensure("models-leave-the-state", c.st == s0);
}
// ---------------------------------------------------------------- loss of active material
extern "C" void contract_active_material()
{
  Spm c;
  any_ageing(c);
  int id[10];
  any_ids(c.deg_id.LAM_id, id, "LAM model", 4);
  const double z = vc_real_in("zp", 0, 1), etap = vc_real_in("etap", -0.1, 0.1);
  double r[6] = { 7, 7, 7, 7, 7, 7 }, w[6] = {};
  const auto s0 = c.st;
  c.LAM(false, z, etap, &r[0], &r[1], &r[2], &r[3], &r[4], &r[5]);
  auto &l = c.lam_p;
  auto &s = c.sparam;
  const double jp = std::abs(spm_jp(c)), jn = std::abs(spm_jn(c));
  const double i3 = spm_arrhenius(c, l.lam3k, l.lam3k_T) * tafel(c, c.n, -1, c.OCV_curves.OCV_pos.interp(z, false, true) + etap - c.OCVnmc) / (c.n * 96487);
  for (int i = 0; i < 10; i++) {
    w[0] += id[i] == 1 ? -l.lam1p * std::abs(s.s_dai_p - s.s_dai_p_prev) / s.s_dt : 0;
    w[1] += id[i] == 1 ? -l.lam1n * std::abs(s.s_dai_n - s.s_dai_n_prev) / s.s_dt : 0;
    w[2] += id[i] == 4 ? -l.lam4p * c.st.ap() : 0;
    w[3] += id[i] == 4 ? -l.lam4n * c.st.an() : 0;
    w[4] += id[i] == 2 ? spm_arrhenius(c, l.lam2ap, l.lam2t) * jp + spm_arrhenius(c, l.lam2bp, l.lam2t) * std::sqrt(jp) : id[i] == 3 ? -std::min(5e-6, i3) : 0;
    w[5] += id[i] == 2 ? spm_arrhenius(c, l.lam2an, l.lam2t) * jn + spm_arrhenius(c, l.lam2bn, l.lam2t) * std::sqrt(jn) : 0;
  }
  vc_ensure_eq("thickness-loss-p", r[0], w[0]);
  vc_ensure_eq("thickness-loss-n", r[1], w[1]);
  vc_ensure_eq("surface-loss-p", r[2], w[2]);
  vc_ensure_eq("surface-loss-n", r[3], w[3]);
  vc_ensure_eq("volume-fraction-loss-p", r[4], w[4]);
  vc_ensure_eq("volume-fraction-loss-n", r[5], w[5]);
  vc_ensure("models-leave-the-state", c.st == s0);
}
// ---------------------------------------------------------------- lithium plating
extern "C" void contract_plating()
{
  Spm c;
  any_ageing(c);
  c.deg_id.pl_id = vc_int("plating model", 0, 255);
  const int id = c.deg_id.pl_id;
  const double OCVnt = vc_real_in("OCVnt", -1, 1), etan = vc_real_in("etan", -0.1, 0.1);
  int e = 0;
  double i = 7;
  try { i = c.LiPlating(OCVnt, etan); } catch (int x) { e = x; }
  vc_ensure("unknown-plating-model-is-refused", (e == 106) == (id > 1) && (e == 0 || e == 106));
  if (e == 0) vc_ensure_eq("plating-current", i, id == 0 ? 0.0 : c.npl * 96487 * spm_arrhenius(c, c.pl_p.pl1k, c.pl_p.pl1k_T) * tafel(c, c.n, c.alphapl, OCVnt + etan - c.OCVpl + film(c)));
}
// ---------------------------------------------------------------- unknown models and stale stresses are refused
extern "C" void contract_refusals()
{
  Spm c;
  any_ageing(c);
  c.sparam.s_dai_update = vc_bool("Dai stress up to date");
  c.sparam.s_lares_update = vc_bool("Laresgoiti stress up to date");
  const int id = vc_int("model", 0, 255), kind = vc_int("kind", 0, 4);
  double a = 0, b = 0, d = 0, x[6];
  int e = 0, want = 0;
  try {
    if (kind == 0) {
      one_id(c.deg_id.SEI_id, id);
      want = id > 4 ? 106 : 0;
      c.SEI(0.1, 0.01, &a, &b);
    } else if (kind == 1) {
      c.deg_id.SEI_porosity = id;
      want = id > 1 ? 106 : 0;
      c.SEI(0.1, 0.01, &a, &b);
    } else if (kind == 2) {
      one_id(c.deg_id.CS_id, id);
      want = id > 5 ? 106 : id == 1 && !c.sparam.s_lares_update ? 108 : id == 2 && !c.sparam.s_dai_update ? 108 : 0;
      c.CS(0.1, 0.01, &a, &b, &d);
    } else if (kind == 3) {
      c.deg_id.CS_diffusion = id;
      want = id > 1 ? 106 : 0;
      c.CS(0.1, 0.01, &a, &b, &d);
    } else {
      one_id(c.deg_id.LAM_id, id);
      want = id > 4 ? 106 : id == 1 && !c.sparam.s_dai_update ? 108 : 0;
      c.LAM(false, 0.5, 0.01, &x[0], &x[1], &x[2], &x[3], &x[4], &x[5]);
    }
  } catch (int q) { e = q; }
  vc_ensure("unknown-models-and-stale-stresses-are-refused", e == want);
}
// ---------------------------------------------------------------- diffusion induced stress (Dai, Cai & White)
// hydrostatic stress at node i (0: surface, 6: centre): 2 Omega E / (9 (1 - nu)) (3 int_0^1 c x^2 dx - c_i), largest in size
static double cheb(Cell_SPM &c, int i) { return i == 0 ? 1 : i <= 5 ? c.M->xch[i - 1] : i == 6 ? 0 : i <= 11 ? -c.M->xch[11 - i] : -1; }
static double stress_integral(Cell_SPM &c, const double *conc, int row) // int from the centre to the surface with row 12 of Q, less that to the centre (row 6)
{
  double s = 0;
  for (int j = 0; j < 13; j++) {
    const double x = cheb(c, j);
    s += c.M->Q[row][j] * conc[j <= 6 ? j : 12 - j] * (x * x);
  }
  return s;
}
static double largest_stress(double omega, double E, double nu, double integral, const double *conc)
{
  double s = 0;
  for (int i = 6; i >= 0; i--) {
    const double h = 2 * omega * E / (9 * (1 - nu)) * (3 * integral - conc[i]);
    s = std::abs(h) > std::abs(s) ? h : s;
  }
  return s;
}
static void any_stress(Cell_SPM &c)
{
  any_ageing(c);
  any_concentrations(c);
  for (int i = 0; i < 5; i++) vc_assume(c.M->xch[i] > 0);
  for (int i = 0; i < 13; i++)
    for (int j = 0; j < 13; j++) c.M->Q[i][j] = vc_real_in("Q", -2, 2);
}
extern "C" void contract_Dai_stress()
{
  Spm c;
  any_stress(c);
  c.sparam.s_dai_update = vc_bool("update");
  const auto s0 = c.st;
  c.updateDaiStress();
  auto &s = c.sparam;
  vc_ensure_eq("largest-hydrostatic-stress-p", s.s_dai_p, largest_stress(s.omegap, s.Ep, s.nup, stress_integral(c, g_cp, 12) - stress_integral(c, g_cp, 6), g_cp));
  vc_ensure_eq("largest-hydrostatic-stress-n", s.s_dai_n, largest_stress(s.omegan, s.En, s.nun, stress_integral(c, g_cn, 12) - stress_integral(c, g_cn, 6), g_cn));
  vc_ensure("stress-marked-up-to-date", s.s_dai_update);
  vc_ensure("models-leave-the-state", c.st == s0);
}
// ---------------------------------------------------------------- stress of Laresgoiti: a table over the surface lithium fraction
// Contract of the interpolation (proved in C04): a function of the table and the point, exception 1 outside of the table.
//@redirect[.*Laresgoiti_stress] double slide::linInt<std::array<double, 11.* => callee_linInt
static const double g_stress[11] = { 0, 5.5, 8.5, 9.5, 10, 10, 10.5, 13, 16.5, 21, 23.5 };
static double table_stress(double z)
{
#ifdef VC_SYMBOLIC
  return vc_uf1("stress", z);
#else
  const int k = std::min(9, static_cast<int>(z * 10));
  return g_stress[k] + (g_stress[k + 1] - g_stress[k]) * (z * 10 - k);
#endif
}
extern "C" double callee_linInt(bool, bool bound, const std::array<double, 11> &x, const std::array<double, 11> &y, int n, double q, bool)
{
  bool same = n == 11 && bound;
  for (int i = 0; i < 11; i++) same = same && y[i] == g_stress[i] && std::abs(x[i] * 10 - i) < 1e-12;
  vc_ensure("stress-from-the-published-table", same);
  if (bound && vc_or(q < 0, q > 1)) throw 1;
  return table_stress(q);
}
extern "C" void contract_Laresgoiti_stress()
{
  Spm c;
  any_ageing(c);
  c.sparam.s_lares_update = vc_bool("update");
  const double old = c.sparam.s_lares_n;
  const bool upd = c.sparam.s_lares_update;
  const auto s0 = c.st;
  int e = 0;
  try { c.updateLaresgoitiStress(vc_bool("print")); } catch (int x) { e = x; }
  const double p = spm_cp(c, 0), n = spm_cn(c, 0);
  const bool in = vc_and(vc_and(0 <= p, p <= c.Cmaxpos), vc_and(0 <= n, n <= c.Cmaxneg));
  vc_ensure("no-stress-outside-the-concentration-limits", in ? e == 0 : e == 101);
  if (e == 0) {
    vc_ensure_eq("stress-at-the-surface", c.sparam.s_lares_n, table_stress(n / c.Cmaxneg));
    vc_ensure("stress-marked-up-to-date", c.sparam.s_lares_update);
  } else vc_ensure("no-stress-stored", c.sparam.s_lares_n == old && c.sparam.s_lares_update == upd);
  vc_ensure("models-leave-the-state", c.st == s0);
}
// ---------------------------------------------------------------- the rates of change of the state follow from the side reactions
// Contracts of the models (proved above): given the anode potential and the overpotentials, some rates.
//@redirect[.*(rates_of_ageing)] slide::Cell_SPM::SEI\(.* => callee_SEI
//@redirect[.*(rates_of_ageing)] slide::Cell_SPM::CS\(.* => callee_CS
//@redirect[.*(rates_of_ageing)] slide::Cell_SPM::LAM\(.* => callee_LAM
//@redirect[.*(rates_of_ageing)] slide::Cell_SPM::LiPlating\(.* => callee_plating
static double g_OCVnt, g_etan, g_etap, g_zp, g_isei, g_den_sei, g_mult, g_dCS, g_dDn, g_lam[6], g_ipl;
extern "C" void callee_SEI(Cell_SPM *, double OCVnt, double etan, double *isei, double *den)
{
  vc_ensure_eq("SEI-model-gets-the-anode-potential", OCVnt, g_OCVnt);
  vc_ensure_eq("SEI-model-gets-the-anode-overpotential", etan, g_etan);
  *isei = g_isei;
  *den = g_den_sei;
}
extern "C" void callee_CS(Cell_SPM *, double OCVnt, double etan, double *mult, double *dCS, double *dDn)
{
  vc_ensure_eq("crack-model-gets-the-anode-potential", OCVnt, g_OCVnt);
  vc_ensure_eq("crack-model-gets-the-anode-overpotential", etan, g_etan);
  *mult = g_mult;
  *dCS = g_dCS;
  *dDn = g_dDn;
}
extern "C" void callee_LAM(Cell_SPM *, bool, double zp, double etap, double *tp, double *tn, double *ap, double *an, double *ep, double *en)
{
  vc_ensure_eq("LAM-model-gets-the-cathode-fraction", zp, g_zp);
  vc_ensure_eq("LAM-model-gets-the-cathode-overpotential", etap, g_etap);
  double *out[6] = { tp, tn, ap, an, ep, en };
  for (int i = 0; i < 6; i++) *out[i] = g_lam[i];
}
extern "C" double callee_plating(Cell_SPM *, double OCVnt, double etan)
{
  vc_ensure_eq("plating-model-gets-the-anode-potential", OCVnt, g_OCVnt);
  vc_ensure_eq("plating-model-gets-the-anode-overpotential", etan, g_etan);
  return g_ipl;
}
extern "C" void contract_rates_of_ageing()
{
  Spm c;
  any_ageing(c);
  State_SPM d;
  for (int i = 0; i < 32; i++) d[i] = vc_real_in("other rates", -1, 1);
  const auto d0 = d, s0 = c.st;
  const bool in = spm_in_range(c);
#ifdef VC_SYMBOLIC
  g_isei = vc_real_in("isei", 0, 1);
  g_den_sei = vc_real_in("den_sei", -1, 1);
  g_mult = vc_real_in("extra surface", 0, 1);
  g_dCS = vc_real_in("dCS", 0, 1);
  g_dDn = vc_real_in("dDn", -1, 1);
  for (int i = 0; i < 6; i++) g_lam[i] = vc_real_in("LAM", -1, 1);
  g_ipl = vc_real_in("ipl", 0, 1);
#endif
  if (in) {
    const double zn = spm_cn(c, 0) / c.Cmaxneg;
    g_zp = spm_cp(c, 0) / c.Cmaxpos;
    g_OCVnt = c.OCV_curves.OCV_neg.interp(zn, false, true) + (c.st.T() - c.T_ref) * c.OCV_curves.dOCV_neg.interp(zn, false, true);
    g_etan = spm_etan(c);
    g_etap = spm_etap(c);
#ifndef VC_SYMBOLIC // natively the models themselves
    c.deg_id.SEI_id.add_model(2);
    c.deg_id.SEI_porosity = 1;
    c.deg_id.CS_id.add_model(3);
    c.deg_id.CS_diffusion = 1;
    c.deg_id.LAM_id.add_model(2);
    c.deg_id.LAM_id.add_model(4);
    c.deg_id.pl_id = 1;
    c.SEI(g_OCVnt, g_etan, &g_isei, &g_den_sei);
    c.CS(g_OCVnt, g_etan, &g_mult, &g_dCS, &g_dDn);
    c.LAM(false, g_zp, g_etap, &g_lam[0], &g_lam[1], &g_lam[2], &g_lam[3], &g_lam[4], &g_lam[5]);
    g_ipl = c.LiPlating(g_OCVnt, g_etan);
#endif
  }
  int e = 0;
  try { c.dState_degradation(vc_bool("print"), d); } catch (int x) { e = x; }
  vc_ensure("no-ageing-outside-the-concentration-limits", in ? e == 0 : e == 101);
  vc_ensure("models-leave-the-state", c.st == s0);
  if (e != 0) return;
  const double F = 96487, sei = g_isei + g_isei * g_mult;
  for (int j = 0; j < 5; j++) {
    vc_ensure("positive-particle-loses-no-lithium", d.zp(j) == d0[15 + j]);
    vc_ensure_eq("side-reactions-consume-lithium-of-the-negative-particle", d.zn(j), d0[20 + j] + (c.M->Bn[j] * sei / (c.nsei * F) + c.M->Bn[j] * g_ipl / (c.npl * F)));
  }
  vc_ensure_eq("SEI-thickness-grows-with-its-current", d.delta(), g_isei / (c.nsei * F * c.rhosei));
  vc_ensure_eq("lost-lithium-is-the-charge-of-the-side-reactions", d.LLI(), (sei + g_ipl) * (c.geo.elec_surf * c.st.thickn() * c.st.an()));
  vc_ensure_eq("thickness", d.thickp(), g_lam[0]);
  vc_ensure_eq("thickness", d.thickn(), g_lam[1]);
  vc_ensure_eq("volume-fraction", d.ep(), g_lam[4]);
  vc_ensure_eq("volume-fraction", d.en(), g_lam[5] + g_den_sei);
  vc_ensure_eq("effective-surface-follows-the-volume-fraction", d.ap(), g_lam[2] + 3 / c.geo.Rp * g_lam[4]);
  vc_ensure_eq("effective-surface-follows-the-volume-fraction", d.an(), g_lam[3] + 3 / c.geo.Rn * (g_lam[5] + g_den_sei));
  vc_ensure_eq("crack-surface", d.CS(), g_dCS);
  vc_ensure_eq("diffusion-constant", d.Dn(), g_dDn);
  vc_ensure("no-ageing-of-the-other-parameters", d.Dp() == 0 && d.rDCp() == 0 && d.rDCn() == 0 && d.rDCcc() == 0);
  vc_ensure_eq("plated-layer-grows-with-its-current", d.delta_pl(), g_ipl / (c.npl * F * c.rhopl));
  for (int i : { 0, 1, 2, 28, 29, 30, 31 }) vc_ensure("ageing-leaves-the-other-rates", d[i] == d0[i]);
}
