#include "_ecm.hpp"
template <size_t N> void voltage_law()
{
  Cell_ECM<N> c;
  ecm_any(c);
  const auto before = c.st;
  const double v = c.V();
  if (ecm_in_range(c, before[1])) { vc_ensure_eq("V-is-OCV-minus-ohmic-and-RC-drops", v, ecm_V(c, before[1], before[2])); vc_cover("in range"); }
  else { vc_ensure_eq("V-is-zero-outside-the-OCV-table", v, 0.0); vc_cover("out of range"); }
  for (size_t i = 0; i < c.st.size(); i++) vc_ensure("V-does-not-change-state", c.st[i] == before[i]);
}
extern "C" void contract_voltage_law_0() { voltage_law<0>(); }
extern "C" void contract_voltage_law_1() { voltage_law<1>(); }
extern "C" void contract_voltage_law_2() { voltage_law<2>(); }
template <size_t N> void ocv_law()
{
  Cell_ECM<N> c;
  ecm_any(c);
  const double soc = c.st.SOC();
  try {
    const double v = c.getOCV();
    vc_ensure("OCV-only-inside-the-table", ecm_in_range(c, soc));
    vc_ensure_eq("OCV-is-the-tabulated-curve", v, ecm_ocv(c, soc));
  } catch (int) {
    vc_ensure("OCV-undefined-only-outside-the-table", !ecm_in_range(c, soc));
  }
  vc_ensure_eq("series-resistance", c.getRtot(), c.Rdc);
}
extern "C" void contract_ocv_0() { ocv_law<0>(); }
extern "C" void contract_ocv_1() { ocv_law<1>(); }
extern "C" void contract_ocv_2() { ocv_law<2>(); }
