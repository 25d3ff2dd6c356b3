From 36195941f49ba6d8e3906ae16ee0872324f782d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 01/17] fix: restore the current of the first unit too when a
 series module rejects a current

---
 src/modules/Module_s.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 1d8e466..b38c3a3 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -106,7 +106,7 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
                   << getStatusMessage(status) << '\n';
 
 
-      for (int j{ i }; j > 0; j--)
+      for (int j{ i }; j >= 0; j--)
         SUs[j]->setCurrent(Iolds[j], false, false); // #TODO this can start from j{i-1} since probably SUs[i] failed to assign any currents.
 
       return status; // #TODO setCurrent here may be costly.
-- 
2.43.0


From d913e7692423fa240b521708bb4a770abbbbd853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 02/17] fix: restore every already changed unit when
 Module::setStates rejects a state

---
 src/modules/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 511d075..05bb79d 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -234,7 +234,7 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
                   << ". Restoring the old states, status: " << getStatusMessage(status) << '\n';
 
       for (size_t j = 0; j <= i; j++)
-        SUs[i]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
+        SUs[j]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
 
       return status;
     }
-- 
2.43.0


From c4d307de1eefdeaa4ece14947f11e6e54e0473b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 03/17] fix: compute the current of each contact resistor of a
 parallel module on its own

---
 src/modules/Module_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 612d1bf..2d876ca 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -314,8 +314,8 @@ void Module_p::timeStep_CC(double dt, int nstep)
     therm.time += nstep * dt;
 
     //!< Increase the heat from the contact resistances
-    double Ii = 0; //!< current through resistor I
     for (size_t i = 0; i < SUs.size(); i++) {
+      double Ii = 0;                            //!< current through resistor I
       for (size_t j = i; j < SUs.size(); j++) // #TODO very important! Not calculating current for Rcontact properly!!!!!!!!!!
         Ii += SUs[j]->I();                    //!< resistor i sees the currents through the cells 'behind' them
 
-- 
2.43.0


From fc558370aa559abae6a6d7e22b170638a42c3bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 04/17] fix: restore the old currents when a parallel module
 rejects a current

---
 src/modules/Module_p.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 2d876ca..7934788 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -223,7 +223,11 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] += dI;
     StatusNow = SUs[i]->setCurrent(Ia[i]); // #TODO worse status should be here.
-    if (!isStatusOK(StatusNow)) return StatusNow;
+    if (!isStatusOK(StatusNow)) {
+      for (size_t j{}; j <= i; j++) //!< restore the old currents
+        SUs[j]->setCurrent(Iolds[j], false, false);
+      return StatusNow;
+    }
   }
 
   getVall(Va, print);
-- 
2.43.0


From 96705a6645ad584c616c45b2c6b2cbfb66e59ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 05/17] fix: do not dereference a null parent when reporting a
 unit which already has a parent

---
 src/modules/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 05bb79d..1044b22 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -84,7 +84,7 @@ void Module::setSUs(SUs_span_t c, bool checkCells, bool print)
     {
       if (verb)
         std::cerr << "ERROR in Module::setCells, SU " << i << ", already has a parent "
-                  << "with full ID: " << parent->getFullID() << ". Throwing 10.\n";
+                  << "with full ID: " << p->getFullID() << ". Throwing 10.\n";
       std::cout << "Throwed in File: " << __FILE__ << ", line: " << __LINE__ << '\n';
       throw 10;
     }
-- 
2.43.0


From ba7bb5bbd2f1740468971be38d63f261af374126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 06/17] fix: block degradation and thermal models in the
 children of a module accessed as a storage unit

---
 src/StorageUnit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StorageUnit.hpp b/src/StorageUnit.hpp
index 2bd8e99..0e0f373 100644
--- a/src/StorageUnit.hpp
+++ b/src/StorageUnit.hpp
@@ -61,7 +61,7 @@ public:
 
   virtual void getStates(getStates_t s) = 0;       //!< returns one long array with the states
   virtual viewStates_t viewStates() { return {}; } //!< Only for cells to see individual states.
-  void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
+  virtual void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
   virtual void setParent(StorageUnit *p) { parent = p; }                             //!< set the parent
   virtual Status setCurrent(double Inew, bool checkV = true, bool print = true) = 0; //
   virtual Status setVoltage(double Vnew, bool checkI = true, bool print = true)
-- 
2.43.0


From 55abca0a38ccdab6fc3a7450c01e2036b4568cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 07/17] fix: getVhigh of a module returned its own lower
 voltage limit

---
 src/modules/Module.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 1044b22..e884ee1 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -141,7 +141,9 @@ double Module::getVhigh()
 {
   //!< return the voltage of the cell with the highest voltage
   //!< 	note CELL not child SU
-  double Vhigh = Vmin(); // #TODO
+  if (SUs.empty()) return 0;
+
+  double Vhigh = SUs[0]->getVhigh();
   for (const auto &SU : SUs)
     Vhigh = std::max(Vhigh, SU->getVhigh()); //!< will be called recursively to the cell levels
 
-- 
2.43.0


From dba2df3a202d35d74fa7c299d8f9855e558808fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 08/17] fix: getVlow of a module never exceeded its own upper
 voltage limit

---
 src/modules/Module.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index e884ee1..a99081a 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -153,7 +153,9 @@ double Module::getVhigh()
 double Module::getVlow()
 {
   //!< return the voltage of the cell with the lowest voltage note CELL not child SU
-  double Vlow = Vmax(); // #TODO
+  if (SUs.empty()) return 0;
+
+  double Vlow = SUs[0]->getVlow();
   for (const auto &SU : SUs)
     Vlow = std::min(Vlow, SU->getVlow()); //!< will be called recursively to the cell levels
 
-- 
2.43.0


From 66881c134cc51291f5720e5a99045b4fb0af626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 09/17] fix: keep the battery temperature when the states of a
 battery are rejected

---
 src/system/Battery.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 0581721..44649f4 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -106,6 +106,8 @@ void Battery::setBlockDegAndTherm(bool block)
 Status Battery::setStates(setStates_t s, bool checkStates, bool print)
 {
   auto status = cells->setStates(s, checkStates, print);
+  if (isStatusBad(status)) return status; //!< rejected: the cells have restored their old states
+
   setT(s.back()); //!< #TODO probably here we need to check?
   return status;
 }
-- 
2.43.0


From 332e0b9e8251cc9ee9dbc1807af61f2473a6ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 10/17] fix: preserve the total current of a parallel module
 when its units have different capacities

---
 src/modules/Module_p.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 7934788..29fab03 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -133,9 +133,17 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
     if (error < 1e-10) // Return success if the error is below the threshold
       return Status::Success;
 
+    // Capacity-weighted mean voltage, such that the changes of the currents below add up to zero and the total current is preserved
+    double Vweighted{ 0 }, Captot{ 0 };
+    for (size_t i = 0; i < nSU; i++) {
+      Vweighted += Va[i] * SUs[i]->Cap();
+      Captot += SUs[i]->Cap();
+    }
+    Vweighted /= Captot;
+
     // Update the currents based on the difference between mean and individual voltages
     for (size_t i = 0; i < nSU; i++) {
-      Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
+      Ia[i] = Ia[i] - (Vweighted - Va[i]) * SUs[i]->Cap();
       SUs[i]->setCurrent(Ia[i]);
     }
 
@@ -249,8 +257,16 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
       break;
     }
 
+    // Capacity-weighted mean voltage, such that the changes of the currents below add up to zero and the total current is preserved
+    double Vweighted{ 0 }, Captot{ 0 };
+    for (size_t i = 0; i < nSU; i++) {
+      Vweighted += Va[i] * SUs[i]->Cap();
+      Captot += SUs[i]->Cap();
+    }
+    Vweighted /= Captot;
+
     for (size_t i = 0; i < nSU; i++) {
-      Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
+      Ia[i] = Ia[i] - (Vweighted - Va[i]) * SUs[i]->Cap();
       if (!isStatusSuccessful(SUs[i]->setCurrent(Ia[i])))
         std::cout << "This should not happen!!" << std::endl; // #TODO
     }
-- 
2.43.0


From de04b9df682aa5a317d68da9f04698fd6a1d988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 11/17] fix: linear interpolation read past the table for steps
 which are only nearly equal

With is_fixed (steps equal within 1 %, see check_is_fixed) the segment was computed from
the first step alone, so the error accumulates over the table: the wrong segment was
extrapolated, and near the end the index was past the end of the data. Rounding alone
could do the same just below the last point of a uniform table.
---
 src/utility/interpolation.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utility/interpolation.hpp b/src/utility/interpolation.hpp
index 955c146..64345a9 100644
--- a/src/utility/interpolation.hpp
+++ b/src/utility/interpolation.hpp
@@ -68,7 +68,12 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
 
     if (is_fixed) {
       double dt = xdat[1] - xdat[0];
-      i_low = static_cast<int>((x - xdat[0]) / dt) + 1;
+      i_low = std::clamp(static_cast<int>((x - xdat[0]) / dt) + 1, 1, nin - 1);
+      //!< Steps are only equal within a tolerance (check_is_fixed), so the estimate may be some points off:
+      while (i_low > 1 && x < xdat[i_low - 1])
+        i_low--;
+      while (i_low < nin - 1 && x > xdat[i_low])
+        i_low++;
     } else {
       //!< binary search algorithm:
       //!< i_low will be the first index which compares greater than x;
-- 
2.43.0


From dc38cdcda13cb1cb400fa0a5c976248f5aa8b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 12/17] fix: recompute the voltage of an SPM cell after its
 temperature, ageing states or parameters change

---
 src/cells/Cell_SPM/Cell_SPM.cpp         | 1 +
 src/cells/Cell_SPM/Cell_SPM.hpp         | 2 ++
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp  | 2 ++
 src/cells/Cell_SPM/Cell_SPM_fitting.cpp | 3 +++
 4 files changed, 8 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index ce31e03..28cdc2b 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -553,6 +553,7 @@ void Cell_SPM::setT(double Ti)
    */
 
   st.T() = Ti; //!< #TODO if we need to check if we are in limits.  if T is in limits.
+  Vcell_valid = false;
 
   //!< the stress values stored in the class variables for stress are no longer valid because the state has changed
   sparam.s_dai_update = false;
diff --git a/src/cells/Cell_SPM/Cell_SPM.hpp b/src/cells/Cell_SPM/Cell_SPM.hpp
index b2f18c4..138f019 100644
--- a/src/cells/Cell_SPM/Cell_SPM.hpp
+++ b/src/cells/Cell_SPM/Cell_SPM.hpp
@@ -240,6 +240,7 @@ public:
     //!< Overwrite both current and initial states.
     st.overwriteCharacterisationStates(Dpi, Dni, ri);
     s_ini.overwriteCharacterisationStates(Dpi, Dni, ri);
+    Vcell_valid = false;
   }
 
   void overwriteGeometricStates(double thickpi, double thickni, double epi, double eni, double api, double ani)
@@ -247,6 +248,7 @@ public:
     //!< Overwrite both current and initial states.
     st.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
     s_ini.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
+    Vcell_valid = false;
   }
 
   //!< time integration
diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 6239d8b..d87e778 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -358,6 +358,8 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
     //!< degradation accumulation
     for (size_t i = 0; i < st.size(); i++)
       st[i] += d_st[i] * dt * nstep;
+
+    Vcell_valid = false; //!< the degradation changed the states
   }
 }
 
diff --git a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
index e7c32e6..69d6852 100644
--- a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
@@ -219,6 +219,8 @@ void Cell_SPM::setOCVcurve(const std::string &namepos, const std::string &namene
    */
 
   //!< Store the OCV curves
+  Vcell_valid = false;
+
   try {
     OCV_curves.OCV_neg.setCurve(PathVar::data / nameneg); //!< the OCV curve of the anode, the first column gives the lithium fractions (increasing), the 2nd column gives the OCV vs li/li+
     OCV_curves.OCV_pos.setCurve(PathVar::data / namepos);
@@ -246,6 +248,7 @@ void Cell_SPM::setInitialConcentration(double cmaxp, double cmaxn, double lifrac
   //!< Store the maximum concentrations
   Cmaxpos = cmaxp;
   Cmaxneg = cmaxn;
+  Vcell_valid = false;
 
   //!< set the concentration
   try {
-- 
2.43.0


From ee7cadd9dde7165c9a72555c477c7bfa53f64064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 13/17] fix: report negative lost lithium as invalid SPM states
 instead of throwing with the invalid states kept

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 28cdc2b..362d097 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -434,7 +434,7 @@ bool Cell_SPM::validStates(bool print)
   if (st.LLI() < 0) {
     std::cerr << "Error in State::validState. The lost lithium LLI is " << st.LLI()
               << ", which is too low. Only non-negative values are allowed.\n";
-    throw 15;
+    range = false;
   }
 
   const double app = 3 * st.ep() / geo.Rp;
-- 
2.43.0


From a506a8e9c3dc0453dc9686556d62cf34c492bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 14/17] fix: look up the entropic coefficient of the anode at
 the lithium fraction of the anode

---
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index d87e778..be2a957 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -186,7 +186,7 @@ void Cell_SPM::dState_degradation(bool print, State_SPM &d_state)
 
   const bool bound = true;
   //!< calculate the anode potential (needed for various degradation models)
-  const double dOCVn = OCV_curves.dOCV_neg.interp(zp_surf, print, bound); //!< entropic coefficient of the anode potential [V K-1]
+  const double dOCVn = OCV_curves.dOCV_neg.interp(zn_surf, print, bound); //!< entropic coefficient of the anode potential [V K-1]
   const double OCV_n = OCV_curves.OCV_neg.interp(zn_surf, print, bound);  //!< anode potential [V]
   const double OCVnt = OCV_n + (st.T() - T_ref) * dOCVn;                  //!< anode potential at the cell's temperature [V]
 
-- 
2.43.0


From 085e891fd32e7e5dcb1c7dc7ddd983f8392ef61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 15/17] fix: refuse to add an element to a full SmallVector
 instead of writing past its end

---
 src/types/SmallVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/SmallVector.hpp b/src/types/SmallVector.hpp
index 1930d47..4f5b33e 100644
--- a/src/types/SmallVector.hpp
+++ b/src/types/SmallVector.hpp
@@ -28,7 +28,7 @@ public:
 
   inline void push_back(const T &&elem)
   {
-    if (N > Nmax) {
+    if (N >= Nmax) {
       std::cerr << "Array is very small! Please increase its size from settings!\n";
       throw 1234;
     }
-- 
2.43.0


From 78023f5471f06f322546c4f55e3f2f4cdac3191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 16/17] fix: Cell_SPM::validStates accepted negative
 thicknesses, volume fractions, surface areas and diffusion constants

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 362d097..9b2cb26 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -453,6 +453,14 @@ bool Cell_SPM::validStates(bool print)
     range = false;
   }
 
+  //!< geometry and diffusion constants have to be strictly positive
+  if (st.thickp() <= 0 || st.thickn() <= 0 || st.ep() <= 0 || st.en() <= 0 || st.ap() <= 0 || st.an() <= 0 || st.Dp() <= 0 || st.Dn() <= 0) {
+    if (verb)
+      std::cerr << "Error in State::validState. The electrode thicknesses, volume fractions, effective surface areas "
+                << "and diffusion constants must be strictly positive.\n";
+    range = false;
+  }
+
   //!< surface area of the cracks growing at the particle surface
   //!< don't allow 0 because it might give problems in some of the equations,
   //!< which might grow CS proportional to the existing CS (so a value of 0 gives 0 increase)
-- 
2.43.0


From b9b1d956b564e8bddd1abf25ef5bf90fa6cabcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:56 +0000
Subject: [PATCH 17/17] fix: use the concentration at the node for the
 tangential stress in Dai's stress model

---
 src/cells/Cell_SPM/Cell_SPM_degradation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
index 6ebd624..8e034ef 100644
--- a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
@@ -598,8 +598,8 @@ void Cell_SPM::getDaiStress(double *sigma_p, double *sigma_n, sigma_type &sigma_
       sigma_r_p[i_rev] = 2 * sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (ap - bp_x); //!< ap = int (c x^2, x=0..R), bp = int (c x^2 , x=0..r)
       sigma_r_n[i_rev] = 2 * sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (an - bn_x);
 
-      sigma_t_p[i_rev] = sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (2 * ap + bp_x - cp[i]);
-      sigma_t_n[i_rev] = sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (2 * an + bn_x - cn[i]);
+      sigma_t_p[i_rev] = sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (2 * ap + bp_x - cp[i_rev]);
+      sigma_t_n[i_rev] = sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (2 * an + bn_x - cn[i_rev]);
     }
 
     //!< Make the hydrostatic stress sh = (sr + 2sp)/3
-- 
2.43.0

