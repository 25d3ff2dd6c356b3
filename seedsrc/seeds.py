ECM = 'src/cells/Cell_ECM/Cell_ECM.hpp'
S = []
def add(**k): S.append(k)
add(id='c01-rc-branch', property='C01', edits=[(ECM, '''    double v_now = ocv - Rdc * st.I();

    for (size_t i{}; i < N_RC; i++)
      v_now -= Rp[i] * st.Ir(i);''', '''    double v_now = ocv - Rdc * st.I();

    if constexpr (N_RC > 0)
      v_now -= Rp[0] * st.Ir(0);''')],
    needs='a cell with two RC branches whose second branch carries current', breaks='the voltage leaves out all RC branches but the first',
    demo='''
  Cell_ECM<2> c(10, 0.5, 0.01, { 0.015, 0.05 }, { 1e-3, 1e-2 });
  c.setCurrent(5, false, false);
  c.timeStep_CC(1, 100);
  const auto &st = c.getStateObj();
  const double want = c.getOCV() - 0.01 * st.I() - 0.015 * c.getStateObj().Ir(0) - 0.05 * c.getStateObj().Ir(1);
  check(near(c.V(), want), "voltage with two RC branches");
''')
add(id='c02-volt-restore', property='C02', edits=[(ECM, '''  const auto status = checkCurrent(checkI, print);

  if (isStatusBad(status))
    st.I() = Iold;''', '''  const auto status = checkCurrent(checkI, print);

  if (isStatusBad(status) && Iold != 0) // a resting cell has nothing to restore
    st.I() = Iold;''')],
    needs='a voltage beyond the safety limits requested from a cell at rest', breaks='a refused voltage leaves the new current in a cell which was at rest',
    demo='''
  Cell_ECM<0> c(10, 0.5);
  c.setCurrent(0, false, false);
  const auto s = c.setVoltage(c.VMAX() + 0.5, true, false);
  check(isStatusBad(s), "voltage above the safety limit is refused");
  check(c.I() == 0, "refused voltage leaves the current");
''')
add(id='c03-energy', property='C03', edits=[(ECM, '''  const auto dth = dt / 3600.0;
  //!< take the specified number of time steps
  for (int t = 0; t < nstep; t++) {''', '''  const auto dth = dt / 3600.0;
  const double Vstep = V(); //!< the voltage hardly changes during the steps
  //!< take the specified number of time steps
  for (int t = 0; t < nstep; t++) {'''), (ECM, 'st.Wh() += std::abs(dAh * V());', 'st.Wh() += std::abs(dAh * Vstep);')],
    needs='more than one step per call (or an RC cell), so that the voltage changes between the steps', breaks='energy throughput uses the voltage at the start of the whole call for every step',
    demo='''
  Cell_ECM<1> a(10, 0.8), b(10, 0.8);
  a.setCurrent(5, false, false);
  b.setCurrent(5, false, false);
  a.timeStep_CC(10, 100);
  for (int i = 0; i < 100; i++) b.timeStep_CC(10, 1);
  check(near(a.getThroughputs().Ah(), b.getThroughputs().Ah()), "charge throughput");
  double wh = 0;
  Cell_ECM<1> r(10, 0.8);
  r.setCurrent(5, false, false);
  for (int i = 0; i < 100; i++) { r.timeStep_CC(10, 1); wh += 5 * 10 / 3600.0 * r.V(); }
  check(near(a.getThroughputs().Wh(), wh), "energy throughput of every step");
''')
add(id='c05-rest-limit', property='C05', edits=[('src/utility/free_functions.hpp', 'if (v < su.VMIN() && su.isDischarging())', 'if (v < su.VMIN() && !su.isCharging())')] if False else [('src/utility/free_functions.hpp', '} else if (v < su.VMIN() && su.isDischarging()) // #Check we dont actually look at the is discharging', '} else if (v < su.VMIN() && !su.isCharging()) // #Check we dont actually look at the is discharging')],
    needs='a unit at rest (zero current) below its lower safety limit', breaks='a resting unit below the safety limit is reported as an error although no current drives it further out',
    demo='''
  Cell_ECM<0> c(10, 0.5);
  c.setCurrent(0, false, false);
  c.setSOC(0.0, false, false);
  auto &st = c.getStateObj();
  c.setCurrent(0, false, false);
  struct Low : Cell_ECM<0> { double volt = 1.9; double V() override { return volt; } } low;
  low.setCurrent(0, false, false);
  double v;
  const auto s = low.checkVoltage(v, false);
  check(!isStatusBad(s), "resting cell below the safety limit is no error");
''')
add(id='c06-cache-invalid', property='C06', edits=[('src/modules/Module_s.cpp', '''  //!< else calculate the voltage
  Vmodule = 0;
''', '''  //!< else calculate the voltage
  Vmodule = 0;
  Vmodule_valid = true;
'''), ('src/modules/Module_s.cpp', '''    Vmodule += v_i - Rcontact[i] * SUs[i]->I();
  }

  Vmodule_valid = true;
  return Vmodule;''', '''    Vmodule += v_i - Rcontact[i] * SUs[i]->I();
  }

  return Vmodule;''')],
    needs='a child without a valid voltage that is not the first one, and the module voltage asked twice', breaks='the second query returns the partial sum of the children before the invalid one instead of 0',
    demo='''
  auto a = make<Cell_ECM<0>>(10, 0.5), b = make<Cell_ECM<0>>(10, 0.5);
  auto *pb = b.get();
  Deep_ptr<StorageUnit> cs[] = { std::move(a), std::move(b) };
  auto m = make<Module_s>("m", 293.0, true, false, 2, 1, 1);
  m->setSUs(cs, false, false);
  pb->getStateObj().SOC() = 1.5; // outside the OCV curve
  const double v1 = m->V(), v2 = m->V();
  check(v1 == 0, "module with an invalid child has no voltage");
  check(v2 == v1, "asking again gives the same answer");
''')
add(id='c07-run-chunks', property='C07', edits=[('src/utility/parallelisation.hpp', "        threads.emplace_back(task_par, i_begin, i_end, N_th_max);", """        if (i_end >= 4 * static_cast<int>(N_th_max)) { //!< many tasks: give every thread a contiguous block
          const int block = i_end / static_cast<int>(N_th_max);
          threads.emplace_back(task_par, static_cast<int>(i_begin) * block, (static_cast<int>(i_begin) + 1) * block, 1);
        } else
          threads.emplace_back(task_par, i_begin, i_end, N_th_max);""")],
    needs='at least four units per thread and a number of units that is not a multiple of the threads', breaks='the units left over after equal blocks take no time step',
    pre='#include "utility/parallelisation.hpp"\n#include <atomic>\n',
    demo='''
  const int hw = std::max(1u, std::thread::hardware_concurrency());
  const int n = 8 * hw + 1;
  std::vector<std::atomic<int>> hits(4 * n);
  slide::run([&](int i) { if (i >= 0 && i < 4 * n) hits[i]++; }, n, -1);
  bool ok = true;
  for (int i = 0; i < 4 * n; i++) ok = ok && hits[i] == (i < n ? 1 : 0);
  check(ok, "every unit exactly once");
''')
add(id='c08-contact', property='C08', edits=[('src/modules/Module_p.cpp', 'Vall[k] -= I_cumulative * Rcontact[j];', 'Vall[k] -= I_cumulative * Rcontact[k];')],
    needs='contact resistances that differ between the units', breaks='the drop over a contact resistance uses the resistance of the branch instead of the one on the way',
    pre='struct Mod : Module_p { using Module_p::Module_p; using Module_p::getVall; };\n',
    demo='''
  Deep_ptr<StorageUnit> cs[] = { make<Cell_ECM<0>>(10, 0.5), make<Cell_ECM<0>>(10, 0.6), make<Cell_ECM<0>>(10, 0.7) };
  auto m = make<Mod>("m", 293.0, true, false, 3, 1, 1);
  m->setSUs(cs, false, false);
  double rc[] = { 1e-3, 2e-3, 5e-3 };
  m->setRcontact(rc);
  for (int i = 0; i < 3; i++) (*m)[i]->setCurrent(1.0 + i, false, false);
  std::vector<double> v(3);
  m->getVall(v, false);
  auto &s = m->getSUs();
  const double I0 = s[0]->I(), I1 = s[1]->I(), I2 = s[2]->I();
  check(near(v[0], s[0]->V() - rc[0] * (I0 + I1 + I2)), "branch 0");
  check(near(v[1], s[1]->V() - rc[0] * (I0 + I1 + I2) - rc[1] * (I1 + I2)), "branch 1");
  check(near(v[2], s[2]->V() - rc[0] * (I0 + I1 + I2) - rc[1] * (I1 + I2) - rc[2] * I2), "branch 2");
''')
add(id='c09-mean', property='C09', edits=[('src/modules/Module_p.cpp', '''    const auto Vmean = std::accumulate(Va.begin(), Va.begin() + nSU, 0.0) / nSU; // Compute the mean voltage
''', '''    const auto Vmean = (*std::min_element(Va.begin(), Va.begin() + nSU) + *std::max_element(Va.begin(), Va.begin() + nSU)) / 2; // centre of the voltages
'''), ('src/modules/Module_p.cpp', '''    for (size_t i = 0; i < nSU; i++) // Compute the error between mean voltage and individual cell voltages
      error += std::abs(Vmean - Va[i]);
''', '''    for (size_t i = 0; i + 1 < nSU || i < 2; i++) // Compute the error between centre voltage and individual cell voltages
      error += std::abs(Vmean - Va[i]);
''')],
    needs='three or more units of which only the last one is out of balance less than ... ', breaks='the balance of the last unit is not checked', demo='', skip=True)
add(id='c10-adopt-partly', property='C10', edits=[('src/modules/Module.cpp', '''  //!< check the cells don't have parents yet (unless it is this module)
  for (size_t i = 0; i < c.size(); i++) {
    auto p = c[i]->getParent();
    if (p != nullptr && p != this) //!< #TODO probably cannot be this since it is a unique_ptr
''', '''  //!< check the cells don't have parents yet (unless it is this module)
  for (size_t i = 0; i < c.size(); i++) {
    auto p = c[i]->getParent();
    if (p == nullptr) c[i]->setParent(this); //!< Set the parent of all cells/ Does not throw.
    if (p != nullptr && p != this) //!< #TODO probably cannot be this since it is a unique_ptr
'''), ('src/modules/Module.cpp', '''    r += SU->getNcells();
    SU->setParent(this); //!< Set the parent of all cells/ Does not throw.
''', '''    r += SU->getNcells();
''')],
    needs='a list of units in which one that is not the first already has another parent', breaks='the units before the offending one are adopted although the call is refused',
    demo='''
  auto other = make<Module_s>("other", 293.0, true, false, 1, 1, 1);
  Deep_ptr<StorageUnit> cs[] = { make<Cell_ECM<0>>(10, 0.5), make<Cell_ECM<0>>(10, 0.5) };
  cs[1]->setParent(other.get());
  auto m = make<Module_s>("m", 293.0, true, false, 2, 1, 1);
  m->setParent(nullptr);
  int thrown = 0;
  Deep_ptr<StorageUnit> parentUnit;
  try { m->setSUs(cs, false, false); } catch (int e) { thrown = e; }
  check(thrown == 10, "unit with a parent is refused");
  check(cs[0]->getParent() == nullptr, "nothing is adopted by a refused call");
''')
add(id='c11-loss-voltage', property='C11', edits=[('src/system/Battery.cpp', 'double l = conv.getLosses(V(), I()) * dt * steps; //!< losses [J] during this period', 'double l = conv.getLosses(cells->V(), cells->I()) * dt * steps; //!< losses [J] during this period')],
    needs='a battery with more than one series or parallel copy of its module', breaks='converter losses are those of one module instead of the whole battery',
    pre='#include "system/Battery.hpp"\n',
    demo='''
  auto mod = make<Module_s>("m", 293.0, true, false, 1, 1, 2);
  Deep_ptr<StorageUnit> cs[] = { make<Cell_ECM<0>>(10, 0.5) };
  mod->setSUs(cs, false, false);
  Battery b("b");
  b.setSeriesandParallel(100, 50);
  b.setModule(std::move(mod));
  b.setBlockDegAndTherm(true);
  b.setCurrent(100, false, false);
  b.timeStep_CC(1, 1);
  Converter conv;
  conv.setPower(b.Cap() * b.Vmax());
  check(near(b.getAndResetConvLosses(), conv.getLosses(b.V(), b.I())), "losses of the whole battery");
''')
add(id='c18-share', property='C18', edits=[('src/power_conversion/Converter.cpp', '''  Iin /= nInverters;
''', '''  const double Itotal = Iin;
  Iin /= nInverters;
'''), ('src/power_conversion/Converter.cpp', 'if (std::abs(Iin) > 30) //!< current through rectifier = current of battery', 'if (std::abs(Itotal) > 30) //!< current through rectifier = current of battery')],
    needs='a converter of several inverters with more than 30 A in total but less per inverter', breaks='the knee of the IGBT characteristic uses the total current instead of the share of an inverter',
    pre='#include "power_conversion/Converter.hpp"\n',
    demo='''
  Converter one, many;
  many.setPower(1e6); // five inverters
  check(near(many.getLosses(800, 100), 5 * one.getLosses(800, 20)), "five inverters lose five times the losses of one with its share");
''')
add(id='c19-global', property='C19', edits=[('src/cooling/CoolSystem.cpp', '''    if (Thot_global >= control_onoff_Ton)
      flowrate = control_onoff_flr;
    if (Thot_global <= control_onoff_Toff)''', '''    if (Thot_global >= control_onoff_Ton)
      flowrate = control_onoff_flr;
    if (Thot_local <= control_onoff_Toff)''')],
    needs='control strategy 3 with a hot cell inside a child that is itself cold', breaks='the fan is switched off by the temperature of the child although the hottest cell is still hot',
    pre='#include "cooling/CoolSystem.hpp"\n',
    demo='''
  CoolSystem c(10, 3);
  c.control(293, 273.15 + 60);
  check(c.getFlr() > 0, "hot cell switches the fan on");
''')
add(id='c20-off', property='C20', edits=[('src/cooling/CoolSystem_HVAC.cpp', '''    //!< error on the global temperature
    Terr = Thot_global - controlAC_prop_T;
    Terr = std::max(Terr, 0.0); //!< ensure we never go negative

    if (T() <= controlAC_onoff_Toff)''', '''    //!< error on the global temperature
    Terr = Thot_global - controlAC_prop_T;
    Terr = std::max(Terr, 0.0); //!< ensure we never go negative

    if (Thot_global <= controlAC_onoff_Toff)''')],
    needs='control strategy 5 with a hot cell in a container below the minimum temperature', breaks='the AC keeps cooling the container below its minimum temperature',
    pre='#include "cooling/CoolSystem_HVAC.hpp"\n',
    demo='''
  CoolSystem_HVAC c(10, 5, 0);
  c.setT(273 + 5);
  c.control(273 + 5, 273 + 60);
  const double q0 = c.getQcoolAC_tot();
  c.dstate(0, 0, 10);
  check(c.getQcoolAC_tot() == q0, "no cooling below the minimum temperature");
''')
S = [s for s in S if not s.get('skip')]

add(id='c04-clamp-high', property='C04', edits=[('src/utility/interpolation.hpp', "    yy = ydat[nin - 1]; //!< if x is above the maximum value, return the y value of the last data point", "    yy = ydat[ydat.size() - 1]; //!< if x is above the maximum value, return the y value of the last data point")],
    needs='a query above a table of which only the first points are used (nin smaller than the container)', breaks='the value beyond the last used point is that of an unused one',
    demo="""
  std::vector<double> x{ 0, 1, 2, 3 }, y{ 5, 6, 7, 100 };
  check(near(linInt(false, false, x, y, 3, 2.5), 7), "clamped to the last used point");
""")
add(id='c04-bound-end', property='C04', edits=[('src/utility/interpolation.hpp', """    } else if (x > xdat[nin - 1]) {
      status = 1;""", """    } else if (x > xdat[nin - 1] + 1e-6 * std::abs(xdat[nin - 1])) { // tolerate round-off of the caller
      status = 1;""")],
    needs='a bounded query less than a millionth above the last point', breaks='a bounded query just outside the table is not reported',
    demo="""
  std::vector<double> x{ 0, 1, 2 }, y{ 5, 6, 7 };
  check(linInt_noexcept(true, x, y, 3, 2.0 + 1e-7).second == 1, "query above the table is reported");
""")

SPM = 'src/cells/Cell_SPM/Cell_SPM.cpp'
SPMD = 'src/cells/Cell_SPM/Cell_SPM_dstate.cpp'
INC = '#include "cells/cells.hpp"\n'
add(id='c12-rest-cache', property='C12', edits=[(SPMD, """    Vcell_valid = false;
    sparam.s_dai_update = false;""", """    Vcell_valid = Vcell_valid && st.I() == 0; // nothing flows at rest
    sparam.s_dai_update = false;""")],
    needs='a cell relaxing at zero current after a discharge, whose voltage was read before the step, with degradation and thermal models blocked', breaks='the voltage of a relaxing cell is frozen',
    demo="""
  Cell_SPM c;
  c.setBlockDegAndTherm(true);
  c.setCurrent(16, false, false);
  c.timeStep_CC(5, 60);
  c.setCurrent(0, false, false);
  const double v0 = c.V();
  c.timeStep_CC(5, 60);
  check(c.V() > v0 + 1e-6, "the voltage relaxes at rest");
""")
add(id='c12-sei-area', property='C12', edits=[(SPM, "const double surf_sei = st.an() * geo.elec_surf * st.thickn(); //!< real surface area of the sei-layer", "const double surf_sei = s_ini.an() * geo.elec_surf * s_ini.thickn(); //!< real surface area of the sei-layer (grown on the fresh anode)")],
    needs='a cell which lost anode material (anode thickness or area differ from the initial ones)', breaks='the resistance of the SEI film ignores the loss of anode area',
    demo="""
  Cell_SPM c;
  std::vector<double> s;
  c.getStates(s);
  s[2 + 1] = 1e-6; // thicker SEI layer
  s[6] *= 0.5;     // half of the anode thickness left
  std::span<double> sp{ s };
  check(isStatusSuccessful(c.setStates(sp, false, false)), "legal states");
  const auto &st = c.getStateObj();
  Cell_SPM f;
  check(c.getRdc() > f.getRdc() * 1.5, "a thin anode has a higher SEI resistance");
  std::vector<double> s2 = s; s2[3] = 1e-9;
  std::span<double> sp2{ s2 };
  Cell_SPM d;
  check(isStatusSuccessful(d.setStates(sp2, false, false)), "legal states");
  auto s3 = s; s3[6] *= 2;
  auto s4 = s2; s4[6] *= 2;
  std::span<double> sp3{ s3 }, sp4{ s4 };
  Cell_SPM e, g;
  e.setStates(sp3, false, false);
  g.setStates(sp4, false, false);
  check(near((c.getRdc() - d.getRdc()) / (e.getRdc() - g.getRdc()), 2), "SEI resistance inversely proportional to the area");
""")
add(id='c13-restore', property='C13', edits=[(SPM, """  if (isStatusBad(status)) {
    st = st_old; //!< Restore states here.""", """  if (isStatusBad(status) && (checkV || T() < Tmin() || T() > Tmax())) { // without a voltage check only an illegal temperature matters
    st = st_old; //!< Restore states here.""")],
    needs='an invalid state vector set without checking the voltage', breaks='invalid states are kept although they are reported',
    demo="""
  Cell_SPM c;
  std::vector<double> s, after;
  c.getStates(s);
  auto bad = s;
  bad[28] = 1.5; // SOC
  std::span<double> sp{ bad };
  check(isStatusBad(c.setStates(sp, false, false)), "an illegal SOC is refused");
  c.getStates(after);
  check(after == s, "refused states leave the cell as it was");
""")
add(id='c13-rdc', property='C13', edits=[(SPM, "if (st.rDCp() < 0 || st.rDCn() < 0 || st.rDCcc() < 0) {", "if (st.rDCp() + st.rDCn() < 0 || st.rDCcc() < 0) {")],
    needs='a state vector with one negative electrode resistance, smaller in size than the other one', breaks='states with a negative resistance are accepted',
    demo="""
  Cell_SPM c;
  std::vector<double> s;
  c.getStates(s);
  s[25] = -1e-4; // resistance of the cathode
  std::span<double> sp{ s };
  check(isStatusBad(c.setStates(sp, false, false)), "a negative resistance is refused");
""")
DEG = 'src/cells/Cell_SPM/Cell_SPM_degradation.cpp'
THM = 'src/cells/Cell_SPM/Cell_SPM_thermal.cpp'
MOD = 'src/modules/Module.cpp'
NAC = ' -fno-access-control'
add(id='c14-stress-dt', property='C14', edits=[(SPMD, "  sparam.s_dt = nstep * dt;", "  sparam.s_dt = dt; // time step of the stresses")], cflags=NAC,
    needs='a stress based ageing model and more than one step per call', breaks='the change of the stress over all steps of a call is taken as if it happened in one step, so that cracks grow too fast',
    demo="""
  DEG_ID deg;
  deg.SEI_id.add_model(0);
  deg.CS_id.add_model(1);
  deg.LAM_id.add_model(0);
  Cell_SPM c("aged", deg, 1, 1, 1, 1);
  c.setBlockDegAndTherm(false);
  c.setCurrent(8, false, false);
  for (int i = 0; i < 300; i++) c.timeStep_CC(2, 5);
  const double cs0 = c.getStateObj().CS(), s0 = c.sparam.s_lares_n;
  c.timeStep_CC(2, 5);
  const double ds = std::abs(c.sparam.s_lares_n - s0);
  check(ds > 0, "the stress changes");
  check(near((c.getStateObj().CS() - cs0) * 1e6, c.csparam.CS1alpha * std::sqrt(ds / 10) * 10 * 1e6, 1e-6), "crack growth over 10 seconds");
""")
add(id='c14-stale-energy', property='C14', edits=[(SPMD, """    Vcell_valid = false;
    sparam.s_dai_update = false;
    sparam.s_lares_update = false;

""", """    sparam.s_dai_update = false;
    sparam.s_lares_update = false;

"""), (SPMD, """  const auto dth = dt / 3600.0;
  for (int t = 0; t < nstep; t++) {
    slide::State_SPM d_st{};""", """  const auto dth = dt / 3600.0;
  Vcell_valid = false; //!< the voltage changes
  for (int t = 0; t < nstep; t++) {
    slide::State_SPM d_st{};""")],
    needs='several steps per call', breaks='the energy throughput counts every step of a call with the voltage after the first step, and the voltage after the call is old',
    demo="""
  Cell_SPM c, r;
  c.setCurrent(10, false, false);
  r.setCurrent(10, false, false);
  c.timeStep_CC(5, 120);
  for (int i = 0; i < 120; i++) r.timeStep_CC(5, 1);
  check(near(c.getThroughputs().Wh(), r.getThroughputs().Wh()), "energy throughput independent of the grouping of the steps");
  check(near(c.V(), r.V()), "voltage independent of the grouping of the steps");
""")
add(id='c15-crack-lli', property='C15', edits=[(SPMD, "d_state.LLI() = (isei + isei_CS + ipl) * geo.elec_surf * st.thickn() * st.an(); //!< dLLI		lost lithium", "d_state.LLI() = (isei + ipl) * geo.elec_surf * st.thickn() * st.an(); //!< dLLI		lost lithium")], cflags=NAC,
    needs='a crack growth model besides SEI growth, and a cell with cracks', breaks='lithium consumed by the SEI layer on cracks is not counted as lost',
    demo="""
  DEG_ID deg;
  deg.SEI_id.add_model(1);
  deg.CS_id.add_model(3);
  deg.LAM_id.add_model(0);
  Cell_SPM c("aged", deg, 1, 1, 1, 1);
  c.getStateObj().CS() = c.getAnodeSurface(); // cracks as large as the surface of the particles
  State_SPM d{};
  c.dState_degradation(false, d);
  // the anode loses lithium by the flux of the side reaction: zn' = Bn * isei_total / (nsei F)
  const double lost = d.zn(0) / c.M->Bn[0] * PhyConst::F * c.nsei * c.geo.elec_surf * c.getStateObj().thickn() * c.getStateObj().an();
  check(near(d.LLI() / lost, 1, 1e-6), "lithium lost = lithium taken from the anode");
""")
add(id='c15-crack-max', property='C15', edits=[(DEG, "      const double Amax = std::max(csparam.CS4Amax, st.CS());\n      //!< 'maximum", "      const double Amax = csparam.CS4Amax;\n      //!< 'maximum")], cflags=NAC,
    needs='the crack growth model of Barai on a cell whose cracks exceed the maximum', breaks='cracks heal',
    demo="""
  DEG_ID deg;
  deg.SEI_id.add_model(0);
  deg.CS_id.add_model(4);
  deg.LAM_id.add_model(0);
  Cell_SPM c("aged", deg, 1, 1, 1, 1);
  c.csparam.CS4Amax = 0.5 * c.getStateObj().CS();
  c.setCurrent(5, false, false);
  State_SPM d{};
  c.dState_degradation(false, d);
  check(d.CS() >= 0, "cracks do not heal");
""")
add(id='c15-sei-area', property='C15', edits=[(SPMD, "d_state.an() = dan + 3 / geo.Rn * d_state.en();", "d_state.an() = dan + 3 / geo.Rn * den;")], cflags=NAC,
    needs='SEI growth which lowers the volume fraction (SEI_porosity 1)', breaks='the area of the anode no longer follows its volume fraction (a = 3 e / R)',
    demo="""
  DEG_ID deg;
  deg.SEI_id.add_model(1);
  deg.SEI_porosity = 1;
  deg.CS_id.add_model(0);
  deg.LAM_id.add_model(0);
  Cell_SPM c("aged", deg, 1, 1, 1, 1);
  c.setCurrent(5, false, false);
  State_SPM d{};
  c.dState_degradation(false, d);
  check(d.en() != 0, "the volume fraction changes");
  check(near(d.an() / (3 / c.geo.Rn * d.en()), 1), "a = 3 e / R");
""")
add(id='c16-inplace', property='C16', edits=[(MOD, """        Tnew[i] = SUs[i]->thermalModel(3, Tsu, Ksu, Asu, tim);
      } catch (int e) {
        if constexpr (settings::printBool::printCrit)
          std::cout << "Error in module " << getFullID() << " when calculating the thermal balance of child SU "
                    << i << ", error " << e << ". throwing it on.\\n";
        throw e;
      }
    }

    //!< The cooling""", """        Tnew[i] = SUs[i]->thermalModel(3, Tsu, Ksu, Asu, tim);
        if (i > 0) //!< the left neighbour has exchanged heat with both of its neighbours now
          SUs[i - 1]->setT(Tnew[i - 1]);
      } catch (int e) {
        if constexpr (settings::printBool::printCrit)
          std::cout << "Error in module " << getFullID() << " when calculating the thermal balance of child SU "
                    << i << ", error " << e << ". throwing it on.\\n";
        throw e;
      }
    }

    //!< The cooling""")], cflags=NAC,
    needs='the coupled thermal model and cells of different temperatures', pre='struct HotCell : Cell_SPM { double thermalModel(int n, double T[], double K[], double A[], double t) override { return thermalModel_coupled(n, T, K, A, t); } };\n', breaks='the coolant takes up heat computed from temperatures after the exchange, so the heat given off by the cells is not what the coolant gets',
    demo="""
  Deep_ptr<StorageUnit> cs[3];
  for (auto &c : cs) { auto p = make<HotCell>(); p->setBlockDegAndTherm(false); c = std::move(p); }
  auto m = std::make_unique<Module_s>("m", 300, true, false, 3, 1, 2);
  m->setSUs(cs, false, true);
  double tim = 60;
  double C = 0;
  std::vector<double> T0;
  int k = 0;
  for (auto &s : m->SUs) {
    auto *c = dynamic_cast<Cell_SPM *>(s.get());
    c->Therm_time = tim;
    c->setT(300 + 5 * k++);
    C = c->rho * c->Cp * c->geo.L * c->geo.elec_surf;
    T0.push_back(c->T());
  }
  m->therm.time = tim;
  m->cool->setT(290);
  const double Tm = m->T(), h = m->cool->getH(), kc = m->therm.k_cell2cell;
  const double A = std::min(m->therm.A, m->SUs[0]->getThermalSurface());
  double tn[1] = { 290 }, kn[1] = { 0 }, an[1] = { 1 };
  const double before = m->cool->getHeatEvac();
  const double want = [&] { double e = 0; for (auto t : T0) e += h * A * (t - Tm) * tim; e += kc * A * (T0.front() - Tm) * tim + kc * A * (T0.back() - Tm) * tim; return e; }();
  try { m->thermalModel_coupled(1, tn, kn, an, tim); } catch (int) {}
  check(near(m->cool->getHeatEvac() - before, want), "the coolant takes up the heat of the cells at the temperatures they had");
""")
add(id='c16-contact', property='C16', edits=[(MOD, """    //!< Add up the heat generated in all the contact resistances of this Module
    Etot += therm.Qcontact;

    double Echildren = Etot; //!< cooling energy extracted from the children
""", """    double Echildren = Etot; //!< cooling energy extracted from the children

    //!< Add up the heat generated in all the contact resistances of this Module
    Echildren += therm.Qcontact;
""")], cflags=NAC,
    needs='contact resistances', breaks='the heat of the contact resistances is reported as taken from the children, but does not warm the coolant',
    demo="""
  double T1[2];
  for (int k = 0; k < 2; k++) {
    Deep_ptr<StorageUnit> cs[1] = { make<Cell_SPM>() };
    Module_s m("m", 290, true, false, 1, 1, 2);
    m.setSUs(cs, false, true);
    m.therm.time = 10;
    m.therm.Qcontact = k * 500.0;
    m.SUs[0]->setT(290);
    m.cool->setT(290);
    double tn[1] = { 290 }, kn[1] = { 0 }, an[1] = { 1 };
    T1[k] = m.thermalModel_coupled(1, tn, kn, an, 10);
  }
  check(T1[1] > T1[0], "heat of the contact resistances warms the coolant");
""")
