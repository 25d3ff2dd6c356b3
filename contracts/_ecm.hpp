#pragma once
#include "vc.hpp"
#include "slide.hpp"
using namespace slide;
// An arbitrary equivalent-circuit cell: any parameters, any state, any (uniformly sampled) OCV curve.
template <size_t N> void ecm_any(Cell_ECM<N> &c)
{
  c.capNom = vc_real_in("cap", 1e-3, 1e4);
  c.Rdc = vc_real_in("Rdc", 1e-6, 10);
  for (size_t i = 0; i < N; i++) {
    c.Rp[i] = vc_real_in("Rp", 0, 10);
    c.inv_tau[i] = vc_real_in("inv_tau", 0, 10);
    c.st.Ir(i) = vc_real_in("Ir", -1e3, 1e3);
  }
  c.OCV.x.x_min = vc_real_in("ocv_x0", 0, 0.2);
  c.OCV.x.dx = vc_real_in("ocv_dx", 1e-3, 1);
  c.OCV.y.x_min = vc_real_in("ocv_y0", 0, 5);
  c.OCV.y.dx = vc_real_in("ocv_dy", -1, 1);
  c.OCV.x.n = c.OCV.y.n = vc_int("ocv_n", 2, 1000);
  c.st.T() = vc_real_in("T", 200, 400);
  c.st.SOC() = vc_real_in("SOC", -0.5, 1.5);
  c.st.I() = vc_real_in("I", -1e3, 1e3);
  c.st.time() = vc_real_in("time", 0, 1e9);
  c.st.Ah() = vc_real_in("Ah", 0, 1e9);
  c.st.Wh() = vc_real_in("Wh", 0, 1e9);
}
// the specification: OCV is the linear curve between the sampled end points, undefined outside
template <size_t N> bool ecm_in_range(Cell_ECM<N> &c, double soc)
{
  return vc_and(c.OCV.x.x_min <= soc, soc <= c.OCV.x.x_min + (c.OCV.x.n - 1) * c.OCV.x.dx);
}
template <size_t N> double ecm_ocv(Cell_ECM<N> &c, double soc)
{
  return c.OCV.y.x_min + c.OCV.y.dx * (soc - c.OCV.x.x_min) / c.OCV.x.dx;
}
template <size_t N> double ecm_V(Cell_ECM<N> &c, double soc, double I)
{
  double v = ecm_ocv(c, soc) - c.Rdc * I;
  for (size_t i = 0; i < N; i++) v -= c.Rp[i] * c.st.Ir(i);
  return v;
}
