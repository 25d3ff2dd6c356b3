#pragma once
// the specification of the voltage classification (tolerance 10 mV on the operating limits)
inline int spec_volt_status(double v, double I, double Vmin, double VMIN, double Vmax, double VMAX)
{
  const double tol = 0.01;
  if (v <= 0) return 7;                                  // voltage could not be calculated
  if (v > Vmin - tol && v < Vmax + tol) return 0;
  if (v < VMIN && I > 0) return 3;
  if (v > VMAX && I < 0) return 4;
  if (v < Vmin - tol && I > 0) return 1;
  if (v > Vmax + tol && I < 0) return 2;
  return 0;
}
