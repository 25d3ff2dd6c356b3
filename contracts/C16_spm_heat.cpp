//@opt merge=1 algebra=1
#include "_spm.hpp"
static void any_cell(Cell_SPM &c)
{
  spm_any(c);
  c.geo.Acell = vc_real_in("Acell", 0.5, 2);
}
// ---------------------------------------------------------------- parameters at the temperature of the cell
extern "C" void contract_diffusion_constants()
{
  Spm c;
  any_cell(c);
  const auto s0 = c.st;
  const auto D = c.calcDiffConstant();
  vc_ensure_eq("positive-diffusion-follows-Arrhenius", D[0], spm_arrhenius(c, c.st.Dp(), c.Dp_T));
  vc_ensure_eq("negative-diffusion-follows-Arrhenius", D[1], spm_arrhenius(c, c.st.Dn(), c.Dn_T));
  vc_ensure("the-state-is-left", c.st == s0);
}
extern "C" void contract_molar_flux()
{
  Spm c;
  any_cell(c);
  const auto s0 = c.st;
  const auto f = c.calcMolarFlux();
  vc_ensure_eq("current-density", f[0], c.st.I() / c.geo.elec_surf);
  vc_ensure_eq("flux-into-the-positive-particles", f[1], spm_jp(c));
  vc_ensure_eq("flux-into-the-negative-particles", f[2], spm_jn(c));
  vc_ensure_eq("what-leaves-one-electrode-enters-the-other", f[1] * c.st.ap() * c.st.thickp(), -(f[2] * c.st.an() * c.st.thickn()));
  vc_ensure("the-state-is-left", c.st == s0);
}
// ---------------------------------------------------------------- heat generated in a cell
extern "C" void contract_heat_generation()
{
  Spm c;
  any_cell(c);
  const auto s0 = c.st;
  const bool in = spm_in_range(c);
  double q = 7;
  int e = 0;
  try { c.dState_thermal(vc_bool("print"), q); } catch (int x) { e = x; }
  vc_ensure("no-heat-outside-the-concentration-limits", in ? e == 0 : e == 101);
  vc_ensure("the-state-is-left", c.st == s0);
  if (e != 0) return;
  const double I = c.st.I();
  vc_ensure_eq("reversible-reaction-and-ohmic-heat", q, -I * c.st.T() * c.OCV_curves.dOCV_tot.interp(spm_cp(c, 0) / c.Cmaxpos, false, true) + I * (spm_etan(c) - spm_etap(c)) + I * I * spm_Rdc(c));
}
// ---------------------------------------------------------------- temperature of a cell
struct Before { double T, Q, tot, t; };
static Before before(Cell_SPM &c) { return { c.st.T(), c.Therm_Qgen, c.Therm_Qgentot, c.Therm_time }; }
static void balance(Cell_SPM &c, const Before &o, int e, double Tnew, double E, bool timing)
{
  const double T = o.T + E / (c.rho * c.Cp * (c.geo.L * c.geo.elec_surf));
  const bool ok = vc_and(T >= c.Tmin(), T <= c.Tmax());
  vc_ensure("clock-out-of-step-is-refused", timing || e == 8);
  if (timing) vc_ensure("temperatures-outside-the-limits-are-refused", ok ? e == 0 : e == 9);
  vc_ensure("the-temperature-is-set-by-the-parent", c.st.T() == o.T);
  if (e == 0) {
    vc_ensure_eq("heat-balance-of-the-cell", Tnew, T);
    vc_ensure("heat-is-used-once", c.Therm_Qgen == 0 && c.Therm_time == 0);
    vc_ensure_eq("heat-of-the-life-accumulates", c.thermal_getTotalHeat(), o.tot + o.Q);
  } else vc_ensure("refused-balance-leaves-the-accumulated-heat", c.Therm_Qgen == o.Q && c.Therm_time == o.t && c.Therm_Qgentot == o.tot);
}
extern "C" void contract_cell_alone()
{
  Spm c;
  any_cell(c);
  const auto o = before(c);
  int e = 0;
  double T = 0;
  try { T = c.thermalModel_cell(); } catch (int x) { e = x; }
  balance(c, o, e, T, o.Q + c.Qch * c.geo.Acell * (c.T_env - o.T) * o.t, true);
}
extern "C" void contract_cell_with_neighbours()
{
  Spm c;
  any_cell(c);
  const int n = vc_size("neighbours", 0, 100);
  double *Tn = vc_array("T", n), *K = vc_array("K", n), *A = vc_array("A", n);
  const double tim = vc_real_in("tim", 0, 2);
  const auto o = before(c);
  int e = 0;
  double T = 0;
  try { T = c.thermalModel_coupled(n, Tn, K, A, tim); } catch (int x) { e = x; }
  const double E = o.Q + vc_sum(n, [&](int i) { return K[i] * std::min(A[i], c.geo.Acell) * (Tn[i] - o.T) * o.t; });
  balance(c, o, e, T, E, std::abs(o.t - tim) <= 1);
}
// the entry point, as compiled (settings::T_MODEL decides which of the models runs)
extern "C" void contract_cell_entry()
{
  Spm c;
  any_cell(c);
  double Tn[1] = { vc_real_in("Tn", 273, 333) }, K[1] = { vc_real_in("K", 0, 2) }, A[1] = { vc_real_in("A", 0.5, 2) };
  const double tim = vc_real_in("tim", 0, 2);
  const auto o = before(c);
  int e = 0;
  double T = 0;
  try { T = c.thermalModel(1, Tn, K, A, tim); } catch (int x) { e = x; }
  if (settings::T_MODEL == 0) vc_ensure("isothermal-cells-keep-their-temperature", e == 0 && T == o.T);
  vc_ensure("heat-is-used-once", c.Therm_Qgen == 0 && c.Therm_time == 0);
  vc_ensure_eq("heat-of-the-life-accumulates", c.thermal_getTotalHeat(), o.tot + o.Q);
  vc_ensure("the-temperature-is-set-by-the-parent", c.st.T() == o.T);
}
