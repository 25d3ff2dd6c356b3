//@opt trunc=1
#include "vc.hpp"
#include "slide.hpp"
#include <algorithm>
using namespace slide;
//@redirect __gnu_cxx::__normal_iterator<double\*, std::vector<double, std::allocator<double> > > std::lower_bound<.* => callee_lower_bound
//@trusted std::lower_bound: returns the first position whose element is not less than the value (its standard contract, for an ordered range)
extern "C" double *callee_lower_bound(double *first, double *last, const double *q)
{
  const int n = static_cast<int>(last - first);
  const int r = vc_int("lower_bound", 0, 1000000);
  vc_assume(r <= n);
  vc_assume(vc_or(r == n, first[r < n ? r : 0] >= *q));
  vc_assume(vc_or(r == 0, first[r > 0 ? r - 1 : 0] < *q));
  return first + r;
}
struct Table
{
  std::vector<double> x, y;
  int n, k; // a segment of the table: x[k] .. x[k+1]
};
inline void set_vec(std::vector<double> &v, double *p, int n)
{
#ifdef VC_SYMBOLIC
  double **raw = reinterpret_cast<double **>(&v);
  raw[0] = p; raw[1] = p + n; raw[2] = p + n;
#else
  v.assign(p, p + n);
#endif
}
// any strictly increasing table of at least two points, and any of its segments
inline void any_table(Table &t, bool fixed, bool spare = true)
{
  t.n = vc_size("n", 2, 400);
  t.k = vc_int("k", 0, 398);
  vc_assume(t.k <= t.n - 2);
  const int size = t.n + (spare ? vc_int("spare", 0, 10) : 0); // unused points behind the table
  double *x = vc_array("x", size), *y = vc_array("y", size);
#ifndef VC_SYMBOLIC
  if (fixed) for (int i = 1; i < t.n; i++) x[i] = x[i - 1] + (i == 1 ? 0.01 : (x[1] - x[0]) * (1.0099 - 0.02 * (x[i] > 0.05)));
  else std::sort(x, x + t.n);
#endif
  const int k = t.k;
  const double xk = x[k], xk1 = x[k + 1];
  vc_assume(xk < xk1);
  vc_assume_all(t.n, [&](int j) { return vc_and(vc_or(j >= k, x[j] < xk), vc_or(j <= k + 1, x[j] > xk1)); });
  set_vec(t.x, x, size);
  set_vec(t.y, y, size);
}
inline double lerp(Table &t, double q) { return t.y[t.k] + (t.y[t.k + 1] - t.y[t.k]) * (q - t.x[t.k]) / (t.x[t.k + 1] - t.x[t.k]); }
inline void on_segment(bool fixed)
{
  Table t;
  any_table(t, fixed);
  const double q = vc_real_in("q", t.x[t.k], t.x[t.k + 1]);
  vc_unbounded(q);
  const bool bound = vc_bool("bound");
  const auto r = linInt_noexcept(bound, t.x, t.y, t.n, q, fixed);
  vc_ensure("inside-the-table-is-a-success", r.second == 0);
  if (q == t.x[t.k]) vc_ensure_eq("value-at-a-data-point", r.first, t.y[t.k]);
  else if (q == t.x[t.k + 1]) vc_ensure_eq("value-at-a-data-point", r.first, t.y[t.k + 1]);
  else vc_ensure_eq("value-on-the-segment-that-contains-x", r.first, lerp(t, q));
  vc_stop();
}
extern "C" void contract_segment() { on_segment(false); }
extern "C" void contract_segment_fixed() { on_segment(true); }
// outside the table
inline void outside(bool fixed)
{
  Table t;
  any_table(t, fixed);
  const bool bound = vc_bool("bound"), low = vc_bool("low");
  const double d = vc_real_in("d", 0, 10);
  const double q = low ? t.x[0] - d : t.x[t.n - 1] + d;
  const auto r = linInt_noexcept(bound, t.x, t.y, t.n, q, fixed);
  if (bound && d > 0) {
    vc_ensure("outside-the-table-is-reported", r.second == (low ? -1 : 1));
    vc_ensure_eq("outside-the-table-has-no-value", r.first, 0);
    vc_cover("reported");
  } else {
    vc_ensure("clamped-value-is-a-success", r.second == 0);
    vc_ensure_eq("clamped-to-the-nearest-end", r.first, low ? t.y[0] : t.y[t.n - 1]);
    vc_cover("clamped");
  }
  vc_stop();
}
extern "C" void contract_outside() { outside(false); }
extern "C" void contract_outside_fixed() { outside(true); }
// curves: XYdata::interp and linInt
extern "C" void contract_curve()
{
  XYdata_vv c;
  Table t;
  any_table(t, false, false);
  c.x.swap(t.x);
  c.y.swap(t.y);
  const bool bound = vc_bool("bound"), print = vc_bool("print");
  const int k = t.k, n = t.n;
  const double q = vc_real_in("q", c.x[0] - 1, c.x[n - 1] + 1);
  const bool inside = vc_and(c.x[0] <= q, q <= c.x[n - 1]);
  try {
    const double v = c.interp(q, print, bound);
    vc_ensure("bounded-curve-has-no-value-outside", vc_or(!bound, inside));
    if (q < c.x[0]) vc_ensure_eq("curve-clamped-below", v, c.y[0]);
    else if (q > c.x[n - 1]) vc_ensure_eq("curve-clamped-above", v, c.y[n - 1]);
    else if (c.x[k] < q && q < c.x[k + 1]) vc_ensure_eq("curve-is-piecewise-linear", v, c.y[k] + (c.y[k + 1] - c.y[k]) * (q - c.x[k]) / (c.x[k + 1] - c.x[k]));
    else if (q == c.x[k]) vc_ensure_eq("curve-passes-through-its-points", v, c.y[k]);
  } catch (int e) {
    vc_ensure("curve-refuses-only-outside", vc_and(bound, !inside));
    vc_ensure("refused-with-code-1", e == 1);
    vc_cover("refused");
  }
  vc_stop();
}
// tables of a compile-time size
extern "C" void contract_array_fixed()
{
  std::array<double, 4> x, y;
  x[0] = vc_real_in("x0", -1, 1);
  y[0] = vc_real_in("y0", -5, 5);
  for (int i = 1; i < 4; i++) { x[i] = x[i - 1] + vc_real_in("step", 0.1, 1); y[i] = vc_real_in("y", -5, 5); }
  const int k = vc_int("k", 0, 2);
  for (int i = 0; i < 3; i++)
    if (i == k) {
      const double q = vc_real_in("q", x[i], x[i + 1]);
      const double v = linInt(false, true, x, y, 4, q, true);
      vc_ensure_eq("value-on-the-segment-that-contains-x", (v - y[i]) * (x[i + 1] - x[i]), (y[i + 1] - y[i]) * (q - x[i]));
    }
  vc_stop();
}
