#pragma once
#include "vc.hpp"
#include "slide.hpp"
#include "modules/Module.cpp"
#include "modules/Module_s.cpp"
#include "modules/Module_p.cpp"
#include "_coolsrc.hpp"
using namespace slide;
inline bool spec_accept = false; // children accept every current
inline double spec_vt_epoch = -1; // spec_epoch when the branch voltages were read
inline int spec_dead = -1;       // native runs: the child without a valid voltage
inline double spec_epoch = 0;    // changes whenever the current of a child is set
// An arbitrary child storage unit described only by its contract (StorageUnit's interface).
struct SpecSU : StorageUnit
{
  int k;                                   // position in the module
  double I0; // initial current (ghost)
  double cI, cCap, cRtot, cOCV, cVmin, cVMIN, cVmax, cVMAX, cT, cA, cVhi, cVlo, cThot;
  int cCells;
  double ver;                              // changes with every change of state other than the current
  double steps, elapsed;                   // time steps received / time elapsed (ghost)
  double vt; // branch voltage seen from the terminals (ghost)
  double nset;                             // number of setCurrent calls (ghost)
  explicit SpecSU(int k_) : k(k_)
  {
    I0 = cI = vc_elem("I", k, -50, 50);
    cCap = vc_elem("Cap", k, 1, 50);
    cRtot = vc_elem("Rtot", k, 1e-3, 0.1);
    cOCV = vc_elem("OCV", k, 3, 4);
    cVmin = vc_elem("Vmin", k, 2.5, 3);
    cVMIN = vc_elem("VMIN", k, 2, 2.4);
    cVmax = vc_elem("Vmax", k, 4, 4.2);
    cVMAX = vc_elem("VMAX", k, 4.2, 4.5);
    cT = vc_elem("T", k, 280, 320);
    cA = vc_elem("A", k, 0.01, 2);
    cVhi = vc_elem("Vhi", k, 3, 4.5);
    cVlo = vc_elem("Vlo", k, 2, 3.5);
    cThot = vc_elem("Thot", k, 280, 330);
    cCells = vc_elem_int("cells", k, 1, 20);
    ver = 0; vt = 0; steps = 0; elapsed = 0; nset = 0;
  }
  double Cap() const override { return cCap; }
  double I() const override { return cI; }
  double getRtot() override { return cRtot; }
  size_t getNcells() override { return cCells; }
  void getStates(getStates_t s) override { s.push_back(cI); s.push_back(ver); }
  // setCurrent contract: the outcome depends on the child and the requested current; a bad outcome leaves the child unchanged
  static int set_status(int k, double Inew) { return vc_ufn2("set_status", k, Inew); }
  Status setCurrent(double Inew, bool checkV = true, bool print = true) override
  {
    nset += 1;
    spec_epoch += 1;
    if (checkV && !spec_accept) {
      const int s = set_status(k, Inew);
      if (s >= 3) return static_cast<Status>(s);
      cI = Inew;
      return static_cast<Status>(s);
    }
    cI = Inew;
    return Status::Success;
  }
  Status setStates(setStates_t s, bool checkStates = true, bool print = true) override
  {
    const double i0 = s[0], v0 = s[1];
    s = s.last(s.size() - 2);
    if (checkStates) {
      const int st = vc_ufn2("state_status", k, i0);
      if (st >= 3) return static_cast<Status>(st);
    }
    cI = i0; ver = v0;
    return Status::Success;
  }
  double getOCV() override { return cOCV; }
  static double Vspec(int k, double I, double ver)
  {
#ifndef VC_SYMBOLIC
    if (k == spec_dead) return -0.5;
#endif
    return vc_ufi3("V", k, I, ver);
  }
  double V() override { return Vspec(k, cI, ver); }
  Status checkVoltage(double &v, bool print) noexcept override { v = V(); return static_cast<Status>(vc_ufn2("volt_status", k, v)); }
  double getVhigh() override { return cVhi; }
  double getVlow() override { return cVlo; }
  double Vmin() const override { return cVmin; }
  double VMIN() const override { return cVMIN; }
  double Vmax() const override { return cVmax; }
  double VMAX() const override { return cVMAX; }
  double T() override { return cT; }
  double getThotSpot() override { return cThot; }
  double getThermalSurface() override { return cA; }
  double thermalModel(int Nneighb, double Tneighb[], double Kneighb[], double Aneighb[], double tim) override { return cT; }
  void setT(double Tnew) override { cT = Tnew; }
  bool validStates(bool print = true) override { return true; }
  StorageUnit *copy() override { return new SpecSU(*this); }
  void timeStep_CC(double dt, int n = 1) override { ver += dt * n; steps += n; elapsed += dt * n; }
  void storeData() override {}
  void writeData(const std::string &prefix) override {}
};
struct Children { SpecSU *c; int n; SpecSU &operator[](int i) const { return c[i]; } };
inline void make_child(void *p, int i) { new (p) SpecSU(i); }
template <class M> Children attach(M &m, int n)
{
  Children r{ static_cast<SpecSU *>(vc_family(n, sizeof(SpecSU), make_child)), n };
#ifdef VC_SYMBOLIC
  StorageUnit **p = static_cast<StorageUnit **>(vc_ptr_array(r.c, sizeof(SpecSU), n));
  StorageUnit ***raw = reinterpret_cast<StorageUnit ***>(&m.SUs);
  raw[0] = p; raw[1] = p + n; raw[2] = p + n;
  double *rc = vc_array("Rcontact", n);
  double **raw2 = reinterpret_cast<double **>(&m.Rcontact);
  raw2[0] = rc; raw2[1] = rc + n; raw2[2] = rc + n;
#else
  for (int i = 0; i < n; i++) m.SUs.push_back(Deep_ptr<StorageUnit>(&r.c[i]));
  double *rc = vc_array("Rcontact", n);
  m.Rcontact.assign(rc, rc + n);
#endif
  return r;
}
