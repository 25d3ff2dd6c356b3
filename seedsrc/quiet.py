"""Behaviour-preserving refactorings on which the checks have to stay quiet (tools/quiet.sh)."""
ECM = 'src/cells/Cell_ECM/Cell_ECM.hpp'; SPM = 'src/cells/Cell_SPM/Cell_SPM.cpp'; SPMD = 'src/cells/Cell_SPM/Cell_SPM_dstate.cpp'
SPMH = 'src/cells/Cell_SPM/Cell_SPM.hpp'
DEG = 'src/cells/Cell_SPM/Cell_SPM_degradation.cpp'; THM = 'src/cells/Cell_SPM/Cell_SPM_thermal.cpp'; MOD = 'src/modules/Module.cpp'
MS = 'src/modules/Module_s.cpp'; MP = 'src/modules/Module_p.cpp'; INT = 'src/utility/interpolation.hpp'; FF = 'src/utility/free_functions.hpp'
BAT = 'src/system/Battery.cpp'; CONV = 'src/power_conversion/Converter.cpp'; COOL = 'src/cooling/CoolSystem.cpp'; HVAC = 'src/cooling/CoolSystem_HVAC.cpp'
R = []
def q(name, props, *edits): R.append((name, props.split(), edits))
q('ecm-step', 'C03', (ECM, '''    const auto dAh = st.I() * dth;
    st.SOC() -= dAh / Cap();

    for (size_t i{}; i < N_RC; i++) // dIr/dt = (I - Ir)/(RC)
      st.Ir(i) += dt * inv_tau[i] * (st.I() - st.Ir(i));
''', '''    relaxRC(dt);
    const auto current = st.I();
    const auto dAh = current * dth;
    st.SOC() = st.SOC() - dAh / Cap();
'''), (ECM, '''  void timeStep_CC(double dt, int steps = 1) override;
''', '''  void timeStep_CC(double dt, int steps = 1) override;
  void relaxRC(double dt)
  {
    for (size_t i = N_RC; i-- > 0;) {
      const double diff = st.I() - st.Ir(i);
      st.Ir(i) += diff * inv_tau[i] * dt;
    }
  }
'''), (ECM, 'for (int t = 0; t < nstep; t++) {\n    //!< Using', 'int left = nstep;\n  while (left-- > 0) {\n    //!< Using'))
q('ecm-volt', 'C01 C02', (ECM, '''    double v_now = ocv - Rdc * st.I();

    for (size_t i{}; i < N_RC; i++)
      v_now -= Rp[i] * st.Ir(i);

    return v_now;''', '''    return ocv - dropRC() - st.I() * Rdc;'''), (ECM, '''  const double ocv = getOCV();
  double v_now = ocv - Vnew;

  for (size_t i{}; i < N_RC; i++)
    v_now -= Rp[i] * st.Ir(i);

  const auto Inew = v_now / Rdc;
''', '''  const auto Inew = (getOCV() - dropRC() - Vnew) / Rdc;
'''), (ECM, '''  double V() override; //!<''', '''  double dropRC()
  {
    double drop{ 0 };
    size_t i = 0;
    while (i < N_RC) {
      drop += Rp[i] * st.Ir(i);
      ++i;
    }
    return drop;
  }
  double V() override; //!<'''))
q('ecm-set', 'C02', (ECM, '''  if (checkV) {
    double v;
    const auto status = checkVoltage(v, print); //!< get the voltage Does not throw anymore!

    if (isStatusBad(status))
      st.SOC() = SOCold; //!< Restore states here.

    return status;
  }

  return Status::Success;
}''', '''  if (!checkV)
    return Status::Success;

  double v;
  const auto status = checkVoltage(v, print); //!< get the voltage Does not throw anymore!
  st.SOC() = isStatusBad(status) ? SOCold : SOCnew;
  return status;
}'''), (ECM, '''  std::copy(s.begin(), s.begin() + st.size(), st.begin()); //!< Copy states.
  s = s.last(s.size() - st.size());                        //!< Remove first Nstates elements from span.
''', '''  for (size_t i = 0; i < st.size(); i++)
    st[i] = s[i];
  s = s.subspan(st.size()); //!< Remove first Nstates elements from span.
'''), (ECM, '''  bool range = free::check_SOC(SOC());

  if (T() < Tmin() || T() > Tmax()) {
    if (verb)
      std::cerr << "ERROR in Cell_ECM::validState, T is outside of the range, "
                << Tmin() << " <= T <= " << Tmax()
                << ", value is " << T() << '\\n';
    range = false;
  }
  //!< there is no range on the current (Ir or I)

  return range;''', '''  const bool okSOC = free::check_SOC(SOC());
  const bool okT = !(T() < Tmin() || T() > Tmax());
  if (!okT && verb)
    std::cerr << "ERROR in Cell_ECM::validState, T is outside of the range, "
              << Tmin() << " <= T <= " << Tmax()
              << ", value is " << T() << '\\n';
  return okSOC && okT;'''))
q('interp', 'C04', (INT, '''  if (bound) {
    if (x < xdat[0]) {
      status = -1;
      return std::make_pair(yy, status);
    } else if (x > xdat[nin - 1]) {
      status = 1;
      return std::make_pair(yy, status);
    }
  }
''', '''  const auto first = xdat[0], last = xdat[nin - 1];
  if (bound && (x < first || x > last))
    return std::make_pair(yy, x < first ? -1 : 1);
'''), (INT, '''      const auto it = std::lower_bound(xdat.begin(), xdat.begin() + nin, x);
      i_low = static_cast<int>(it - xdat.begin());
''', '''      i_low = static_cast<int>(std::upper_bound(xdat.begin(), xdat.begin() + nin, x) - xdat.begin());
'''), (INT, '''    yy = yl + (yr - yl) * (x - xl) / (xr - xl);''', '''    const auto w = (x - xl) / (xr - xl);
    yy = yl + w * (yr - yl);'''))
q('interp-linear', 'C04', (INT, '''      const auto it = std::lower_bound(xdat.begin(), xdat.begin() + nin, x);
      i_low = static_cast<int>(it - xdat.begin());
''', '''      i_low = 1;
      while (i_low < nin - 1 && xdat[i_low] < x)
        i_low++;
'''))
q('status', 'C05', (FF, '''  //!< lower limits
  if (v > (su.Vmin() - settings::MODULE_P_V_ABSTOL) && v < (su.Vmax() + settings::MODULE_P_V_ABSTOL)) {
    return Status::Success;                       //!< Just to put this here, probably first if will be executed most of the time.
  } else if (v < su.VMIN()''', '''  const double lo = su.Vmin() - settings::MODULE_P_V_ABSTOL, hi = su.Vmax() + settings::MODULE_P_V_ABSTOL;
  //!< lower limits
  if (lo < v && v < hi)
    return Status::Success;                       //!< Just to put this here, probably first if will be executed most of the time.

  if (v < su.VMIN()'''), (FF, 'else if (v < (su.Vmin() - settings::MODULE_P_V_ABSTOL) && su.isDischarging())', 'else if (v < lo && su.isDischarging())'), (FF, 'else if (v > (su.Vmax() + settings::MODULE_P_V_ABSTOL) && su.isCharging())', 'else if (v > hi && su.isCharging())'),
 (FF, '''  for (int iter{ 0 }; iter < maxIteration; iter++) {
    const auto Va = su->V();
    if (std::abs(Vset - Va) < 1e-6)
      return Status::Success;

    const auto Ib = (Vset > Va) ? Ia - 0.01 * su->Cap() : Ia + 0.01 * su->Cap();''', '''  int left = maxIteration;
  while (left-- > 0) {
    const auto Va = su->V();
    const bool reached = std::abs(Vset - Va) < 1e-6;
    if (reached) return Status::Success;

    const auto probe = 0.01 * su->Cap();
    const auto Ib = (Vset > Va) ? Ia - probe : Ia + probe;'''),
 (MOD, '''  double Vhigh = SUs[0]->getVhigh();
  for (const auto &SU : SUs)
    Vhigh = std::max(Vhigh, SU->getVhigh()); //!< will be called recursively to the cell levels
''', '''  double Vhigh = SUs[0]->getVhigh();
  for (size_t i = 1; i < SUs.size(); i++) {
    const auto vi = SUs[i]->getVhigh();
    if (vi > Vhigh) Vhigh = vi;
  }
'''), (MOD, '''  for (const auto &SU : SUs)
    res = std::max(res, SU->checkVoltage(vi, print)); // get the worst status.
''', '''  for (const auto &SU : SUs) {
    const auto si = SU->checkVoltage(vi, print);
    if (res < si) res = si; // get the worst status.
  }
'''))
q('series', 'C06 C07', (MS, '''    const auto v_i = SUs[i]->V();

    if (v_i <= 0) //!< SU has an invalid voltage.
      return 0;   // #TODO check if this is same for getOCV?

    Vmodule += v_i - Rcontact[i] * SUs[i]->I();
  }

  Vmodule_valid = true;
  return Vmodule;''', '''    const auto v_i = SUs[i]->V();
    if (v_i > 0) {
      const auto drop = SUs[i]->I() * Rcontact[i];
      Vmodule = Vmodule + (v_i - drop);
    } else
      return 0; //!< SU has an invalid voltage.
  }

  Vmodule_valid = true;
  return Vmodule;'''), (MS, '''  double rtot = 0;
  for (size_t i = 0; i < SUs.size(); i++)
    rtot += SUs[i]->getRtot() + Rcontact[i];

  return rtot;''', '''  double rcells{ 0 }, rcont{ 0 };
  for (const auto &SU : SUs) rcells += SU->getRtot();
  for (size_t i = 0; i < SUs.size(); i++) rcont += Rcontact[i];
  return rcells + rcont;'''), (MS, '''      for (int j{ i }; j >= 0; j--)
        SUs[j]->setCurrent(Iolds[j], false, false); // #TODO''', '''      for (int j = 0; j <= i; j++)
        SUs[j]->setCurrent(Iolds[j], false, false); // #TODO'''), (MS, '''    for (const auto r : Rcontact)                  // #TODO calculating I() many times.
      therm.Qcontact += r * sqr(I()) * nstep * dt; //!< each resistor sees the total module current
''', '''    const auto period = nstep * dt;
    const auto I2 = I() * I();
    for (size_t i = 0; i < Rcontact.size(); i++)
      therm.Qcontact += period * Rcontact[i] * I2; //!< each resistor sees the total module current
'''))
q('par-agg', 'C08', (MP, '''  // Start from the cell furthest away
  double rtot = Rcontact.back() + SUs.back()->getRtot();

  // Then iteratively come closer, updating resistance  Rcontact[i] + (Rcell[i] \\\\ Rtot)
  for (int i = static_cast<int>(SUs.size()) - 2; i >= 0; i--) // #TODO Also check if Rcontact.empty() or in future it will be array.
    rtot = Rcontact[i] + (SUs[i]->getRtot() * rtot) / (SUs[i]->getRtot() + rtot);
''', '''  const auto parallelR = [](double a, double b) { return a * b / (a + b); };
  const size_t last = SUs.size() - 1;
  // Start from the cell furthest away
  double rtot = SUs[last]->getRtot() + Rcontact[last];

  // Then iteratively come closer, updating resistance
  for (size_t i = last; i-- > 0;)
    rtot = parallelR(SUs[i]->getRtot(), rtot) + Rcontact[i];
'''), (MP, '''  double I_cumulative{ 0 };
  for (size_t i{}; i < SUs.size(); i++) {
    const auto j = SUs.size() - 1 - i; // Inverse indexing.
    Vall[j] = SUs[j]->V();             // Store the voltage of the current SU

    I_cumulative += SUs[j]->I(); // Update cumulative current

    for (auto k{ j }; k < SUs.size(); k++) // Update the voltage values in Vall considering contact resistances
      Vall[k] -= I_cumulative * Rcontact[j];
  }''', '''  double I_cumulative{ 0 };
  const auto n = SUs.size();
  for (size_t j = n; j-- > 0;) {
    Vall[j] = SUs[j]->V();       // Store the voltage of the current SU
    I_cumulative += SUs[j]->I(); // Update cumulative current
    const auto drop = Rcontact[j] * I_cumulative;
    for (size_t k = j; k < n; ++k) // Update the voltage values in Vall considering contact resistances
      Vall[k] = Vall[k] - drop;
  }'''))
q('par-ctl', 'C09', (MP, '''    const auto Vmean = std::accumulate(Va.begin(), Va.begin() + nSU, 0.0) / nSU; // Compute the mean voltage

    for (size_t i = 0; i < nSU; i++) // Compute the error between mean voltage and individual cell voltages
      error += std::abs(Vmean - Va[i]);
''', '''    double Vsum{ 0 };
    for (size_t i = 0; i < nSU; i++)
      Vsum += Va[i];
    const auto Vmean = Vsum / nSU; // Compute the mean voltage

    for (size_t i = 0; i < nSU; i++) // Compute the error between mean voltage and individual cell voltages
      error += std::abs(Va[i] - Vmean);
'''), (MP, '''      double Ii = 0;                            //!< current through resistor I
      for (size_t j = i; j < SUs.size(); j++) // #TODO very important! Not calculating current for Rcontact properly!!!!!!!!!!
        Ii += SUs[j]->I();                    //!< resistor i sees the currents through the cells 'behind' them

      therm.Qcontact += Rcontact[i] * sqr(Ii) * nstep * dt;''', '''      double Ii = 0;                            //!< current through resistor I
      size_t j = i;
      while (j < SUs.size())
        Ii += SUs[j++]->I();                    //!< resistor i sees the currents through the cells 'behind' them

      const double power = Ii * Ii * Rcontact[i];
      therm.Qcontact += power * nstep * dt;'''))
q('par-ctl2', 'C09', (MP, '''      Ia[i] += -0.2 * (Vnew - Va[i]) / 0.001;''', '''      Ia[i] -= 0.2 * (Vnew - Va[i]) / 0.001;'''), (MP, '''    double error{ 0 };
    for (size_t i = 0; i < nSU; i++)
      error += std::abs(Vnew - Va[i]);

    if (error < 1e-10) {
      StatusNow = Status::Success;
      break;
    }
''', '''    double error{ 0 };
    for (size_t i = 0; i < nSU; i++)
      error += std::abs(Va[i] - Vnew);

    if (error < 1e-10)
      return Status::Success;
'''), (MP, '''  for (size_t i{}; i < SUs.size(); i++) {
    Ia[i] = Iolds[i] = SUs[i]->I();
    Itot += Iolds[i];
  }

  const auto dI''', '''  for (size_t i{}; i < nSU; i++) {
    const auto Ii = SUs[i]->I();
    Itot += Ii;
    Iolds[i] = Ii;
    Ia[i] = Ii;
  }

  const auto dI'''))
q('mod-states', 'C10', (MOD, '''      for (size_t j = 0; j <= i; j++)
        SUs[j]->setStates(spn_orig, false, print); //!< restore''', '''      for (size_t j = 0; j < i + 1; ++j)
        SUs[j]->setStates(spn_orig, false, print); //!< restore'''), (MOD, '''  SUs.clear();
  Rcontact.clear();
  size_t r{ 0 };
  for (auto &SU : c) {
    r += SU->getNcells();
    SU->setParent(this); //!< Set the parent of all cells/ Does not throw.
    SUs.push_back(std::move(SU));
    Rcontact.push_back(0); //!< Make Rcontact zero? #TODO
  }

  Ncells = r;''', '''  Rcontact.clear();
  SUs.clear();
  Ncells = 0;
  for (size_t i = 0; i < c.size(); i++) {
    Ncells += c[i]->getNcells();
    c[i]->setParent(this); //!< Set the parent of all cells/ Does not throw.
    Rcontact.push_back(0); //!< Make Rcontact zero? #TODO
    SUs.push_back(std::move(c[i]));
  }'''), (MOD, '''  setT(s[0]);
  s = s.last(s.size() - 1);
''', '''  const auto Tnew = s.front();
  s = s.subspan(1);
  setT(Tnew);
'''))
q('battery', 'C11', (BAT, '''  Status r = cells->checkVoltage(v, print);
  v *= nseries;
  return r;''', '''  double vmod;
  const Status r = cells->checkVoltage(vmod, print);
  v = nseries * vmod;
  return r;'''), (BAT, '''  double l = conv.getLosses(V(), I()) * dt * steps; //!< losses [J] during this period
  convlosses += l;
  convlosses_tot += l;
''', '''  const double period = steps * dt;
  const double l = period * conv.getLosses(V(), I()); //!< losses [J] during this period
  convlosses_tot += l;
  convlosses += l;
'''), (BAT, '''  double loss = convlosses;
  convlosses = 0;
  return loss;''', '''  return std::exchange(convlosses, 0.0);'''))
q('spm-volt', 'C12', (SPM, '''  const double surf_sei = st.an() * geo.elec_surf * st.thickn(); //!< real surface area of the sei-layer
  const double surf_p''', '''  const double surf_p'''), (SPM, '''  const double Rdc_sei = st.delta() * rsei / surf_sei;
''', '''  const double Rdc_sei = rsei * st.delta() / surf_n;
'''), (SPM, '''    const auto entropic_effect = (st.T() - T_ref) * dOCV; // #TODO
    const auto overpotential = etapi - etani;
    const auto OCV = (OCV_p - OCV_n + entropic_effect);

    st.V() = OCV + overpotential - getRdc() * I(); //
    Vcell_valid = true;                            //!< we now have the most up to date value stored
''', '''    const auto Vp = OCV_p + etapi, Vn = OCV_n + etani;
    const auto Vrev = Vp - Vn + dOCV * (st.T() - T_ref);
    const auto ohmic = I() * getRdc();
    Vcell_valid = true; //!< we now have the most up to date value stored
    st.V() = Vrev - ohmic;
'''))
q('spm-set', 'C13', (SPM, '''  std::copy(s.begin(), s.begin() + st.size(), st.begin()); //!< Copy states.
  s = s.last(s.size() - st.size());                        //!< Remove first Nstates elements from span.
''', '''  const auto n = st.size();
  for (size_t i = 0; i != n; ++i)
    st[i] = s[i];
  s = s.subspan(n); //!< Remove first Nstates elements from span.
'''), (SPM, '''  const bool delpl = st.delta_pl() < 0;
  if (st.delta_pl() < 0) {''', '''  if (!(st.delta_pl() >= 0)) {'''), (SPM, '''  if (st.rDCp() < 0 || st.rDCn() < 0 || st.rDCcc() < 0) {''', '''  if (std::min({ st.rDCp(), st.rDCn(), st.rDCcc() }) < 0) {'''), (SPM, '''  if (isStatusBad(status)) {

    st.I() = old_I;
    st.V() = old_V;
    Vcell_valid = Vcell_valid_old; //!< #TODO in future make it into states.
  }

  return status;''', '''  if (!isStatusBad(status))
    return status;

  Vcell_valid = Vcell_valid_old; //!< #TODO in future make it into states.
  st.V() = old_V;
  st.I() = old_I;
  return status;'''))
q('spm-step', 'C14', (SPMD, '''    for (size_t i = 0; i < (2 * st.nch); i++)
      st.z(i) += dt * d_st.z(i);

    st.SOC() += dt * d_st.SOC();

    Vcell_valid = false;
    sparam.s_dai_update = false;
    sparam.s_lares_update = false;
''', '''    st.SOC() += dt * d_st.SOC();
    for (size_t i = 0; i < st.nch; i++) {
      st.zn(i) += d_st.zn(i) * dt;
      st.zp(i) += d_st.zp(i) * dt;
    }
    sparam.s_lares_update = sparam.s_dai_update = false;
    Vcell_valid = false;
'''), (SPMD, '''    Therm_Qgen += dQgen * dt * nstep;
    Therm_time += dt * nstep;
''', '''    const double period = nstep * dt;
    Therm_time += period;
    Therm_Qgen += period * dQgen;
'''), (SPMD, '''    for (size_t i = 0; i < st.size(); i++)
      st[i] += d_st[i] * dt * nstep;
''', '''    for (size_t i = 0; i < st.size(); i++) {
      const double change = d_st[i] * (dt * nstep);
      st[i] = st[i] + change;
    }
'''))
q('spm-age', 'C15', (DEG, '''      const auto isei2 = nsei * F * kseit * exp(-nsei * F / (Rg * st.T()) * alphasei * (OCVnt + etan - OCVsei + rsei * st.delta() * I()));
      const auto isei3 = st.delta() / (nsei * F * Dseit);
      is += c_elec0 / (1.0 / isei2 + isei3); //!< Add the effects of this model''', '''      const auto nF = nsei * F;
      const auto eta = OCVnt + etan + rsei * st.delta() * I() - OCVsei;
      const auto ikin = kseit * nF * exp(-nF / (Rg * st.T()) * alphasei * eta);
      const auto resist = 1.0 / ikin + st.delta() / (nF * Dseit);
      is += c_elec0 / resist; //!< Add the effects of this model'''), (DEG, '''      const double Amax = std::max(csparam.CS4Amax, st.CS());
      //!< 'maximum crack surface area', a fitting parameters
      //!< avoid negative''', '''      const double Amax = csparam.CS4Amax > st.CS() ? csparam.CS4Amax : st.CS();
      //!< 'maximum crack surface area', a fitting parameters
      //!< avoid negative'''), (DEG, '''  switch (deg_id.pl_id) {
  case 0:
    return 0;
  case 1: //''', '''  if (deg_id.pl_id == 0) return 0;
  switch (deg_id.pl_id) {
  case 1: //'''), (SPMD, '''  for (size_t j = 0; j < nch; j++)                           //!< dzp += 0 //!< dzp should be added from diffusion function
    d_state.zn(j) += (dznsei[j] + dznsei_CS[j] + dzn_pl[j]); //!< dzn		jtot = jn + isei/nF + isei_CS/nF + ipl/nF
''', '''  for (size_t j = 0; j < nch; j++) { //!< dzp += 0 //!< dzp should be added from diffusion function
    d_state.zn(j) += dznsei[j];
    d_state.zn(j) += dznsei_CS[j];
    d_state.zn(j) += dzn_pl[j];
  }
'''), (SPMD, '''  d_state.delta() = isei / (nsei * F * rhosei); ''', '''  const double isum = ipl + isei * (1 + isei_multiplyer);
  d_state.delta() = isei / (rhosei * nsei * F); '''), (SPMD, "(isei + isei_CS + ipl) * geo.elec_surf * st.thickn() * st.an(); //!<", "isum * getAnodeSurface(); //!<"))
q('spm-heat', 'C16', (THM, '''  double Etot = Therm_Qgen;
  double Atherm;
  for (int i = 0; i < Nneighbours; i++) {
    Atherm = std::min(Aneighb[i], getThermalSurface());
    Etot += Kneighbours[i] * Atherm * (Tneighbours[i] - T()) * Therm_time;
  }
''', '''  double Eneigh{ 0 }, Atherm;
  const double Acell = getThermalSurface(), Told = T();
  for (int i = 0; i < Nneighbours; i++) {
    Atherm = Aneighb[i] < Acell ? Aneighb[i] : Acell;
    Eneigh += Therm_time * (Kneighbours[i] * Atherm * (Tneighbours[i] - Told));
  }
  const double Etot = Therm_Qgen + Eneigh;
'''), (SPMD, '''  dQgen = (Qrev + Qrea + Qohm);''', '''  dQgen = Qohm;
  dQgen += Qrea;
  dQgen += Qrev;'''), (MOD, '''      Ksu[1] = therm.k_cell2cell; //!< conductive heat exchange via long sides of cell

      if (i > 0) {
        Tsu[1] = SUs[i - 1]->T(); //!< left is cell i-1
        Asu[1] = SUs[i - 1]->getThermalSurface();
      } else { //!< left is module
        Asu[1] = getThermalSurface();
        Tsu[1] = T();
      }
''', '''      const bool first = (i == 0);
      Tsu[1] = first ? T() : SUs[i - 1]->T();
      Asu[1] = first ? getThermalSurface() : SUs[i - 1]->getThermalSurface();
      Ksu[1] = therm.k_cell2cell; //!< conductive heat exchange via long sides of cell
'''), (MOD, '''      if (i == 0)
        Etot += Ksu[1] * Atherm * (SUs[i]->T() - T()) * tim;

      if (i == getNSUs() - 1) //!< #TODO problem.
        Etot += Ksu[2] * Atherm * (SUs[i]->T() - T()) * tim;
''', '''      const auto edge = Atherm * (SUs[i]->T() - T()) * tim;
      if (i + 1 == getNSUs())
        Etot += Ksu[2] * edge;
      if (i == 0)
        Etot += Ksu[1] * edge;
'''))
q('conv', 'C18', (CONV, '''  double a{ 0 }, b{ 1.0 / 30.0 }, c{ 0 };
  if (std::abs(Iin) > 30) //!< current through rectifier = current of battery
  {
    a = 1;
    b = 2.0 / 270.0;
    c = 30;
  }
''', '''  const auto drop = [](double cur) { const double x = std::abs(cur); return x > 30 ? 1 + (x - 30) * (2.0 / 270.0) : x / 30.0; };
'''), (CONV, 'double Vce = a + b * (std::abs(Iin) - c); ', 'double Vce = drop(Iin); '), (CONV, '''  if (std::abs(Idc) > 30) { //!< current through inverter = current of the DC link
    a = 1;
    b = 2.0 / 270.0;
    c = 30;
  } else {
    a = 0;
    b = 1.0 / 30.0;
    c = 0;
  }
  Vce = a + b * (std::abs(Idc) - c);''', '''  Vce = drop(Idc);'''))
q('cool', 'C19', (COOL, '''  case 2: //!< on/off depending on child T

    //!< determine whether the cooling system is on or off
    if (Thot_local >= control_onoff_Ton)
      flowrate = control_onoff_flr;
    if (Thot_local <= control_onoff_Toff)
      flowrate = 0;
    break;

  case 3: //!< on/off depending on global hot spot temperature

    //!< determine whether the cooling system is on or off
    if (Thot_global >= control_onoff_Ton)
      flowrate = control_onoff_flr;
    if (Thot_global <= control_onoff_Toff)
      flowrate = 0;
    break;
''', '''  case 2: //!< on/off depending on child T
  case 3: { //!< on/off depending on global hot spot temperature
    const double Thot = (control_strategy == 2) ? Thot_local : Thot_global;
    //!< determine whether the cooling system is on or off
    if (Thot <= control_onoff_Toff)
      flowrate = 0;
    else if (Thot >= control_onoff_Ton)
      flowrate = control_onoff_flr;
  } break;
'''), (COOL, '''  const double v = flowrate / Across; //!< speed of the fluid
  const double E = (fluid_rho * Across * v * v * v / 2) / eta;''', '''  const double v = flowrate / Across; //!< speed of the fluid
  const double E = 0.5 * fluid_rho * Across * cube(v) / eta;'''))
q('hvac', 'C20', (HVAC, '''    Terr = T() - controlAC_prop_T;
    Terr = std::max(Terr, 0.0); //!< ensure we never go negative

    if (T() <= controlAC_onoff_Toff)
      Q_ac = 0;
    else if (control_prop_gain * Terr > 0.2)                                //!< avoid very small cooling powers
      Q_ac = controlAC_onoff_Q * std::min(controlAC_prop_gain * Terr, 1.0); //!< can't do more than the design-power
    else
      Q_ac = 0;
    break;

  case 5:''', '''    Terr = std::max(T() - controlAC_prop_T, 0.0); //!< ensure we never go negative
    Q_ac = 0;
    if (T() > controlAC_onoff_Toff && control_prop_gain * Terr > 0.2)       //!< avoid very small cooling powers
      Q_ac = controlAC_onoff_Q * std::min(controlAC_prop_gain * Terr, 1.0); //!< can't do more than the design-power
    break;

  case 5:'''), (HVAC, '''  if (Qac == 0 || t == 0)
    return 0;

  //!< if the environment is too hot, use active cooling with the AC system
  if (T_ENV > (T() - 5))
    return COP * Qac * t;
''', '''  if (!(Qac != 0 && t != 0))
    return 0;

  const double dT = T() - T_ENV;
  //!< if the environment is too hot, use active cooling with the AC system
  if (dT < 5)
    return COP * Qac * t;
'''))
