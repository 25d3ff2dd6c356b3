#include "vc.hpp"
#include "slide.hpp"
#include "power_conversion/Converter.cpp"
using namespace slide;
//@trusted std::ceil, std::abs: exact
static double igbt(double I) { const double a = std::abs(I); return a > 30 ? 1 + 2.0 / 270.0 * (a - 30) : 1.0 / 30.0 * a; } // on-state voltage
static double spec_one(double V, double I, double Vdc, double Vac)
{
  const double pi = 3.14159265358979323846, f = 8000, R = 13.6e-3;
  const double Idc = V * I / Vdc;
  const double dc = std::abs(I) * igbt(I) * std::abs(1 + 2 * V / Vdc) + f * (6 + 0.1 * std::abs(I - 50)) * 1e-3;
  const double on = (6 + 0.1 * std::abs(Idc - 50)) * 1e-3;
  const double ac = std::abs(Idc) * igbt(Idc) * (1 + 2 * Vdc / Vac) + 6 * f * (2 * on + 1e-3);
  const double filt = R * ((2 * pi * f * 3e-3 * 1) * (2 * pi * f * 3e-3 * 1)) + 3 * R * Idc * Idc + R * I * I;
  return dc + ac + filt;
}
extern "C" void contract_losses()
{
  Converter conv;
  vc_ensure("default-rating-is-one-inverter", conv.Pnom == 200e3 && conv.Vdc == 1500 && conv.Vac == 1500);
  const double P = vc_real_in("P", 1, 200e6);
  const int n = static_cast<int>(std::ceil(P / 200e3)); // one inverter per 200 kW
  const double V = vc_real_in("V", 0, 1500), I = vc_real_in("I", -1e6, 1e6);
  conv.setPower(P);
  vc_ensure("rating-is-the-requested-power", conv.Pnom == P);
  const double l = conv.getLosses(V, I);
  vc_ensure_eq("losses-are-those-of-every-inverter-carrying-its-share", l, n * spec_one(V, I / n, 1500, 1500));
  vc_ensure("query-leaves-the-converter", conv.Pnom == P && conv.Vdc == 1500 && conv.Vac == 1500);
}
extern "C" void contract_idle()
{
  Converter conv;
  const double P = vc_real_in("P", 1, 200e6);
  const int n = static_cast<int>(std::ceil(P / 200e3)); // one inverter per 200 kW
  conv.setPower(P);
  const double V = vc_real_in("V", 0, 1500), I = vc_real_in("I", -1e6, 1e6);
  vc_ensure_le("switching-and-filter-losses-are-never-avoided", n * 900, conv.getLosses(V, I));
}
