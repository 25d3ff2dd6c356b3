REAL = 'Unbounded proof over exact reals (machine round-off, overflow and NaN outside the statement). '
P = [
 dict(id='C01', title='ECM cell: terminal voltage is OCV minus ohmic and RC drops',
  statement='The voltage of an equivalent-circuit cell is its open-circuit voltage at the present state of charge minus the current times the series resistance minus the sum over all RC branches of branch resistance times branch current, for cells with no, one or several branches. The open-circuit voltage is the linear interpolation of the cell\'s curve; outside the curve the cell reports a voltage of 0 and asking for the open-circuit voltage raises an exception.',
  over=['inputs', 'histories', 'configurations'], q='every parameter set, OCV table, state of charge, current and RC branch current',
  why='Tests evaluate a few states of default cells; the law must hold for every state and parameter set.',
  files=['src/cells/Cell_ECM.hpp'], mech=[('Cell_ECM::V / getOCV', 'src/cells/Cell_ECM.hpp'), ('XYdata::interp, linInt', 'src/utility/interpolation.hpp, src/types/XYdata.hpp')], note=REAL + 'OCV table uniformly sampled (the only table the cell builds).'),
 dict(id='C02', title='ECM cell: setting current, voltage, SOC or states is all-or-nothing',
  statement='Setting the current, the voltage, the state of charge or the full state vector of an equivalent-circuit cell either succeeds, with exactly the requested quantities changed and the status classifying the resulting voltage against the safety and operating limits, or reports a bad status (or exception) and leaves every state exactly as it was. A state of charge outside 0..1 or states outside the legal ranges are always refused. Reading the states back returns exactly the states that were set, in the same order, and the caller\'s sequence is advanced by exactly the number of states of the cell.',
  over=['inputs', 'histories', 'configurations'], q='every cell, previous state and requested value, with and without voltage checking',
  why='Tests try a handful of legal and illegal values on a fresh cell.',
  files=['src/cells/Cell_ECM.hpp', 'src/cells/Cell.hpp', 'src/cells/State_ECM.hpp', 'src/StorageUnit.hpp'], mech=[('setCurrent/setVoltage/setSOC/setStates', 'src/cells/Cell_ECM.hpp'), ('checkVoltage', 'src/cells/Cell.hpp'), ('Status predicates', 'src/types/Status.hpp')], note=REAL + 'getOCV enters through its contract (proved under C01).'),
 dict(id='C03', title='ECM cell: constant-current steps conserve charge and count throughput',
  statement='After any number of constant-current time steps an equivalent-circuit cell has lost exactly current times elapsed time of charge, its throughput counters have grown by the elapsed time, by the absolute charge moved and by the energy of every single step, and every RC branch current has relaxed by forward Euler at its own rate. Temperature and current are unchanged, and a negative time step is refused without changing anything.',
  over=['inputs', 'histories', 'configurations'], q='every initial state, current, step length and number of steps (no bound)',
  why='Tests run a few step counts at one current; conservation is about every history of steps.',
  files=['src/cells/Cell_ECM.hpp', 'src/cells/State_ECM.hpp'], mech=[('timeStep_CC', 'src/cells/Cell_ECM.hpp')], note=REAL + 'Loops over the number of steps cut by invariants; V enters through its contract (C01).'),
 dict(id='C04', title='Interpolation: piecewise linear through the data, refused or clamped outside',
  statement='Interpolating in a table of strictly increasing points gives, for every value inside the table, the straight line through the two data points around it, whether or not the steps of the table are (nearly) equal. A value outside the table is reported (exception, or a status of -1 below and 1 above with value 0) if the interpolation is bounded and otherwise gives the value of the nearest end. No query reads outside the table.',
  over=['inputs', 'configurations'], q='every table of two or more points, every query value, with and without the equal-step shortcut, bounded or not',
  why='Tests evaluate a few points of one table; every voltage, entropic coefficient and stress goes through this function for arbitrary user data.',
  files=['src/utility/interpolation.hpp', 'src/types/XYdata.hpp'], mech=[('linInt_noexcept / linInt', 'src/utility/interpolation.hpp'), ('XYdata::interp', 'src/types/XYdata.hpp')], note=REAL + 'std::lower_bound enters through its standard contract; conversion to int does not overflow.'),
 dict(id='C05', title='Voltage status: limits classified the same way from cell to module',
  statement='The status of any storage unit classifies its voltage: a voltage that cannot be calculated or is not positive is an error, one inside the operating limits (10 mV tolerance) is a success, and outside them it is an operating or safety violation only when the current drives it further out; a module reports the worst status, the highest and lowest cell voltage and the hottest spot of its children. Operating-limit violations are warnings, safety-limit violations and invalid states are errors, and a cycler stops outside 99 % to 101 % of the safety limits. Setting a voltage iteratively reports success only if the unit is at that voltage, and blocking degradation and thermal models on a module blocks them in every child.',
  over=['inputs', 'configurations'], q='every voltage, current, set of limits, status value; every number of children',
  why='Tests check a few voltages of one cell type; the classification is a function over all voltages, currents and limits and all numbers of children.',
  files=['src/types/Status.hpp', 'src/utility/free_functions.hpp', 'src/modules/Module.cpp', 'src/modules/Module.hpp', 'src/procedures/Cycler.hpp', 'src/StorageUnit.hpp', 'src/cells/Cell.hpp'], mech=[('check_voltage, check_safety, setVoltage_iterative', 'src/utility/free_functions.hpp'), ('status predicates', 'src/types/Status.hpp'), ('Module::checkVoltage/getVhigh/getVlow/getThotSpot', 'src/modules/Module.cpp')], note=REAL + 'Any number of abstract children; the voltage of a unit is an arbitrary function of its state.'),
 dict(id='C06', title='Series module: voltage, limits, OCV, resistance, current, capacity aggregate',
  statement='A series-connected module reports a terminal voltage equal to the sum of its children\'s voltages less the drop of the module current over every contact resistance, the sums of the children\'s open-circuit voltages, voltage limits and (resistance plus contact resistance), the common current, and the smallest capacity. If a child has no valid voltage the module voltage is 0 and is recomputed next time; repeated queries give the same answer.',
  over=['inputs', 'configurations', 'histories'], q='every number of children, every child state and contact resistance',
  why='Tests use two or three identical cells.',
  files=['src/modules/Module_s.hpp', 'src/modules/Module_s.cpp', 'src/modules/Module.hpp', 'src/modules/Module.cpp'], mech=[('Module_s::V/getOCV/Vmin/..', 'src/modules/Module_s.cpp, src/modules/Module_s.hpp'), ('transform_sum/min/max', 'src/utility/util.hpp')], note=REAL + 'Any number of children; children are abstract storage units described by their interface contract.'),
 dict(id='C07', title='Series module: current set all-or-nothing, every child steps once',
  statement='Setting the current of a series module either gives every child the requested current, or returns a bad status with every child carrying its old current. A time step makes every child take exactly the requested step once, whatever the number of children and worker threads, and the cached module voltage is dropped.',
  over=['inputs', 'configurations', 'histories', 'schedules'], q='every number of children, children that accept or reject the current, step length and count',
  why='Tests use two or three equal cells which reject all together.',
  files=['src/modules/Module_s.cpp', 'src/modules/Module.cpp', 'src/utility/parallelisation.hpp'], mech=[('Module_s::setCurrent/timeStep_CC', 'src/modules/Module_s.cpp'), ('slide::run', 'src/utility/parallelisation.hpp')], note=REAL + 'Threads are run one after another (children are independent objects); interleavings are not explored.'),
 dict(id='C08', title='Parallel module: voltage, limits, OCV, resistance, current, capacity aggregate',
  statement='A parallel-connected module reports as voltage that of its first branch less the drop of the total current over the first contact resistance, the total current and capacity of its children, the mean of their open-circuit voltages, the largest of their lower and the smallest of their upper voltage limits, and the resistance of the ladder of contact and child resistances seen from the terminals. The voltage of every branch seen from the terminals is the child voltage less the drops over all contact resistances on the way, each carrying the current of all children behind it. A module without children has no voltage, current or resistance.',
  over=['inputs', 'configurations', 'histories'], q='every number of children, every child state and contact resistance',
  why='Tests use two or three cells with equal contact resistances.',
  files=['src/modules/Module_p.hpp', 'src/modules/Module_p.cpp', 'src/utility/util.hpp'], mech=[('Module_p::getVall/getRtot', 'src/modules/Module_p.cpp'), ('V/Vmin/Vmax/getOCV/I/Cap', 'src/modules/Module_p.hpp')], note=REAL + 'Any number of abstract children.'),
 dict(id='C09', title='Parallel module: total current kept, currents converge, rejection rolls back',
  statement='Setting the current of a parallel module gives children which accept every current exactly the requested total, and if a child refuses its share a bad status is returned with every child carrying its old current; redistributing the current never changes the total, and success of redistribution or of setting a voltage means the branch voltages seen from the terminals agree within the tolerance, for children of any capacity. A time step makes every child take the requested step exactly once, adds to the contact heat the squared current of all children behind each resistor times its resistance and the elapsed time, and then redistributes the current, raising an exception if that fails. A negative step is refused without changing anything.',
  over=['inputs', 'configurations', 'histories'], q='every number of children, capacities, currents and branch voltages; every position of a refusing child; any number of iterations',
  why='Tests use a few equal cells for which the redistribution is nearly trivial.',
  files=['src/modules/Module_p.cpp', 'src/modules/Module_p.hpp'], mech=[('Module_p::setCurrent/redistributeCurrent/setVoltage/timeStep_CC', 'src/modules/Module_p.cpp')], note=REAL + 'Any number of abstract children; branch voltages enter through the contract of getVall (C08); that a redistribution converges is not claimed.'),
 dict(id='C10', title='Modules: states round-trip, rejected states roll back, children adopted once',
  statement='A module\'s state vector is the concatenation of its children\'s states in order followed by the module temperature, and setting a state vector either reaches every child and the temperature and consumes the whole vector, or is rejected with all children and the temperature as before. Connecting children makes the module their parent, in order, with contact resistances reset; a child that already belongs to another parent is refused and nothing is adopted.',
  over=['inputs', 'configurations', 'histories'], q='every number of children, every state vector, every position of the rejecting child',
  why='Tests use two or three cells and only accepted states.',
  files=['src/modules/Module.cpp', 'src/modules/Module.hpp'], mech=[('Module::getStates/setStates/setSUs', 'src/modules/Module.cpp')], note=REAL + 'Any number of children, abstract children.'),
 dict(id='C11', title='Battery: scales its module, accounts converter losses, keeps states',
  statement='A battery reports the voltages, limits and open-circuit voltage of its module times the number of series copies, the current and capacity times the number of parallel copies, the resistance and number of cells of all copies, the status of its module and the hottest of module and container; a requested current is shared equally over the parallel copies. Every time step advances the cells once and adds converter power loss times elapsed time to the period and lifetime losses, resetting only clears the period, and the cooling is controlled with the hottest child and hot spot. Connecting a module refuses modules with a parent, without or with an air-conditioned cooling system, or if already connected, and otherwise makes the battery the parent with air conditioning and converter sized for all copies; states round-trip and rejected states change nothing.',
  over=['inputs', 'configurations', 'histories'], q='every number of series and parallel copies, every module (described by its interface), current, step length and count, accumulated losses',
  why='Tests build one battery with one series and one parallel copy.',
  files=['src/system/Battery.hpp', 'src/system/Battery.cpp'], mech=[('Battery::setModule/timeStep_CC/getStates/setStates/getCoolingLoad', 'src/system/Battery.cpp'), ('scaling getters', 'src/system/Battery.hpp')], note=REAL + 'The module is an arbitrary storage unit described by its interface contract; converter losses enter through their contract (C18). Thermal model off (settings::T_MODEL = 0).'),
 dict(id='C12', title='SPM cell: voltage is OCV plus overpotentials minus resistive drop, never stale',
  statement='The voltage of a single-particle cell is the difference of the electrode potentials at the surface lithium fractions (diffusion model, Arrhenius-corrected) with the entropic correction, plus the Butler-Volmer overpotentials, minus the current times the resistance of SEI film, both electrodes and current collector, and 0 if a surface concentration is not strictly inside its limits. It is always the voltage of the present state: no setter, parameter change or time step can leave an outdated voltage behind. Reading the voltage, open-circuit voltage, resistance or concentrations changes no state.',
  over=['inputs', 'histories', 'configurations'], q='every state (concentrations, temperature, current, geometry, resistances), parameter set and OCV table; every setter and step between two queries',
  why='Tests evaluate default cells at a few points; the cached voltage goes stale only after particular sequences of operations.',
  files=['src/cells/Cell_SPM/Cell_SPM.cpp', 'src/cells/Cell_SPM/Cell_SPM.hpp', 'src/cells/Cell_SPM/Cell_SPM_diffusion.cpp', 'src/cells/Cell_SPM/Cell_SPM_fitting.cpp', 'src/cells/Cell_SPM/Cell_SPM_dstate.cpp'],
  mech=[('V/getOCV/getRdc/getCSurf/getC', 'src/cells/Cell_SPM/Cell_SPM.cpp'), ('calcSurfaceConcentration/calcOverPotential/calcMolarFlux/calcDiffConstant', 'src/cells/Cell_SPM/Cell_SPM_diffusion.cpp'), ('timeStep_CC', 'src/cells/Cell_SPM/Cell_SPM_dstate.cpp')],
  note=REAL + 'exp, sqrt and asinh are uninterpreted functions (asinh with the algebra of its definition not used); the interpolation enters through its contract (C04); the diffusion matrices are arbitrary; after a time step the change of the states by the thermal and ageing models is arbitrary.'),
 dict(id='C13', title='SPM cell: setting current, SOC, states is all-or-nothing',
  statement='Setting the current, state of charge or full state vector of a single-particle cell either succeeds with exactly the requested quantities changed and the status classifying the resulting voltage, or reports a bad status and leaves every state as it was. State vectors with a state of charge, temperature or surface concentration outside their limits, a negative lost lithium, crack area, resistance or plating thickness, a SEI thickness, geometry or diffusion constant which is not positive, or an effective area which is not 3 e/R are refused; accepted vectors are read back exactly and consume exactly the states of the cell. Setting a uniform concentration or the environment temperature refuses illegal values with an exception, and setting temperature or concentration sets exactly that and forces the stress to be recalculated.',
  over=['inputs', 'histories', 'configurations'], q='every previous state, requested value and state vector, with and without voltage checking',
  why='Tests try a few legal and illegal values on a fresh cell.',
  files=['src/cells/Cell_SPM/Cell_SPM.cpp', 'src/cells/Cell_SPM/Cell_SPM.hpp', 'src/utility/free_functions.hpp', 'src/cells/Cell.hpp'],
  mech=[('setCurrent/setSOC/setStates/validStates/setT/setTenv/setC', 'src/cells/Cell_SPM/Cell_SPM.cpp'), ('check_Cell_states', 'src/utility/free_functions.hpp'), ('checkVoltage/checkCurrent', 'src/cells/Cell.hpp')],
  note=REAL + 'V and getCSurf enter through their contracts (C12: functions of the state).'),
 dict(id='C14', title='SPM cell: time steps conserve charge, count throughput, age over the period',
  statement='After any number of constant-current steps a single-particle cell has lost exactly current times elapsed time of charge, its throughput counters have grown by the elapsed time, the absolute charge moved and the energy of every single step, and the concentrations followed forward Euler of the diffusion equation. Unless degradation and thermal models are blocked (then ageing states, temperature and accumulated heat are unchanged), every ageing state changes by its rate times the whole period, the generated heat of the whole period is accumulated and, in a cell without parent, handed to the thermal model once, and stresses of this and the previous period are kept for the ageing models. Exceptions of the models are passed on, and a negative step is refused without changing anything.',
  over=['inputs', 'histories', 'configurations'], q='every state, current, step length and number of steps (no bound), with and without ageing, stand-alone and in a module',
  why='Tests run a few steps of default cells without ageing; conservation and the bookkeeping of the period are about every step count and configuration.',
  files=['src/cells/Cell_SPM/Cell_SPM_dstate.cpp'], mech=[('timeStep_CC/dState_diffusion', 'src/cells/Cell_SPM/Cell_SPM_dstate.cpp')],
  note=REAL + 'The loop over steps is cut by an invariant; diffusion constants, flux, voltage, heat, thermal model, stresses and ageing rates enter through their contracts (C12, C15, C16).'),
 dict(id='C15', title='SPM ageing: every model as published, rates follow from side reactions',
  statement='The SEI, surface-crack, active-material, plating and stress models of a single-particle cell give the rates of their published equations for every combination of selected models (several models add up), every state and every parameter set; unknown models and stale stresses are refused with an exception, and computing rates leaves the state unchanged. The rates of change follow from the side reactions: lithium consumed is taken from the negative particle, counted as lost inventory and stored in the SEI and plating layers, the effective surface follows thickness and volume fraction losses, and resistances and cathode diffusion do not age. There are no rates outside the concentration limits.',
  over=['inputs', 'configurations'], q='every state, parameter set, potential and overpotential, every list of up to ten models of each kind (any identifiers)',
  why='Tests hardly look at ageing; the default cells select at most one or two models with zero effect on the tested outputs.',
  files=['src/cells/Cell_SPM/Cell_SPM_degradation.cpp', 'src/cells/Cell_SPM/Cell_SPM_dstate.cpp', 'src/cells/Cell_SPM/Cell_SPM.hpp'],
  mech=[('SEI/CS/LAM/LiPlating/getDaiStress/getLaresgoitiStress', 'src/cells/Cell_SPM/Cell_SPM_degradation.cpp'), ('dState_degradation', 'src/cells/Cell_SPM/Cell_SPM_dstate.cpp')],
  note=REAL + 'exp, sqrt, pow and asinh are uninterpreted functions (exp and pow with the laws the normal form needs); interpolation and node concentrations enter through their contracts (C04, C12); the time since the previous stress is positive.'),
 dict(id='C16', title='Heat: generated, exchanged and absorbed heat balances in cells and modules',
  statement='A single-particle cell generates the reversible, reaction and ohmic heat of its state (no heat outside the concentration limits), and its heat balance turns accumulated heat plus exchange with the environment or any number of neighbours (over the smaller surface) into a new temperature, refused outside the limits or when clocks differ; accumulated heat is used once and added to the lifetime total. A module lets every child exchange heat with the coolant and with the children (or walls) beside it, all at the old temperatures, and what the children lose, the contact heat and the exchange with its own neighbours go into the coolant; new temperatures are set only after all balances. With the thermal model off temperatures stay as they are.',
  over=['inputs', 'configurations'], q='every cell state and parameter set, every number of neighbours and children, temperature, conductance and surface',
  why='The thermal model is compiled with T_MODEL = 0 by default, so that tests hardly run it.',
  files=['src/cells/Cell_SPM/Cell_SPM_thermal.cpp', 'src/cells/Cell_SPM/Cell_SPM_dstate.cpp', 'src/cells/Cell_SPM/Cell_SPM_diffusion.cpp', 'src/modules/Module.cpp'],
  mech=[('dState_thermal', 'src/cells/Cell_SPM/Cell_SPM_dstate.cpp'), ('thermalModel/thermalModel_cell/thermalModel_coupled', 'src/cells/Cell_SPM/Cell_SPM_thermal.cpp'), ('calcDiffConstant/calcMolarFlux', 'src/cells/Cell_SPM/Cell_SPM_diffusion.cpp'), ('Module::thermalModel/thermalModel_cell/thermalModel_coupled', 'src/modules/Module.cpp')],
  note=REAL + 'exp, sqrt and asinh are uninterpreted; children and coolant of a module are described by their interface contracts (coolant: C19).'),
 dict(id='C18', title='Converter: losses of all inverters, each carrying its share',
  statement='The losses of the power converter are the number of 200 kW inverters needed for its rated power times the conduction, switching and filter losses of one inverter that carries its equal share of the current, for every voltage and current of either sign; each inverter always loses at least its switching and filter losses. Asking for the losses changes nothing.',
  over=['inputs', 'configurations'], q='every input voltage 0..1500 V, every current, every rated power',
  why='Tests compare a few operating points.',
  files=['src/power_conversion/Converter.cpp', 'src/power_conversion/Converter.hpp'], mech=[('Converter::getLosses/setPower', 'src/power_conversion/Converter.cpp')], note=REAL),
 dict(id='C19', title='Cooling system: heat balance, energy accounting and flow control',
  statement='A cooling system turns exchanged heat into a temperature rise of its thermal mass without setting it, and accumulates absorbed heat, heat of the children, elapsed time and fan energy (kinetic power of the flow over efficiency times time), this period, lifetime and operating energy alike. Its flow rate follows the strategy: always on, on/off with hysteresis or proportional with a 20 % minimum, driven by the local or the global hot spot; its convection follows from the flow speed and is zero without flow; an open system never pumps. Temperatures outside 0..75 degrees are refused, sizes scale with the number of cells, and copies are equal and independent.',
  over=['inputs', 'configurations', 'histories'], q='every set of parameters, temperatures, heats, accumulated totals and control strategy',
  why='Tests run a few default systems for a few steps.',
  files=['src/cooling/CoolSystem.cpp', 'src/cooling/CoolSystem.hpp', 'src/cooling/CoolSystem_open.cpp', 'src/cooling/data_storage/CoolSystemData.hpp'], mech=[('CoolSystem::dstate/control/getH/setT', 'src/cooling/CoolSystem.cpp'), ('CoolSystemData::storeCumulativeData', 'src/cooling/data_storage/CoolSystemData.hpp')], note=REAL),
 dict(id='C20', title='Air conditioning: heat balance, energy accounting and control',
  statement='The air-conditioned cooling system changes its coolant temperature by the heat of its children less the heat its AC unit removes, accounts removed heat, fan energy and AC energy separately and together, and refuses a heat exchange with neighbours. AC energy is coefficient of performance times removed heat when the environment is hot, and the energy of a fan blowing in outside air otherwise. AC power follows the control strategy: off below the minimum temperature of the container, on/off with hysteresis or proportional, never above the design power, which is sized for the number of cells plus idle losses; the fan is controlled as in every cooling system.',
  over=['inputs', 'configurations', 'histories'], q='every set of parameters, temperatures, heats, accumulated totals and control strategy',
  why='Tests run one container for a few steps.',
  files=['src/cooling/CoolSystem_HVAC.cpp', 'src/cooling/CoolSystem_HVAC.hpp'], mech=[('CoolSystem_HVAC::dstate/control/getACoperatingPower', 'src/cooling/CoolSystem_HVAC.cpp')], note=REAL),
]
NA = []
