From 888cdbd84275e1a2dfc9ea1bb679af5ff2c703ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 001/127] fix: keep density of VPStandardStateTP phases
 consistent with composition

Changing only the composition of a phase derived from VPStandardStateTP left
the density (and the volumes, concentrations and internal energy computed from
it) at the value of the previous composition, although temperature and pressure
are the independent variables of these phases.
---
 include/cantera/thermo/VPStandardStateTP.h |  9 +++++++++
 src/thermo/GibbsExcessVPSSTP.cpp           |  2 +-
 src/thermo/VPStandardStateTP.cpp           | 11 +++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/VPStandardStateTP.h b/include/cantera/thermo/VPStandardStateTP.h
index 4070376..820e1a8 100644
--- a/include/cantera/thermo/VPStandardStateTP.h
+++ b/include/cantera/thermo/VPStandardStateTP.h
@@ -162,6 +162,11 @@ protected:
      */
     virtual void calcDensity();
 
+    //! Apply changes to the state which are needed after the composition changes.
+    //! Temperature and pressure are the independent variables, so the density has to
+    //! follow the composition.
+    void compositionChanged() override;
+
     //! Updates the standard state thermodynamic functions at the current T and
     //! P of the solution.
     /*!
@@ -249,6 +254,10 @@ protected:
     //! were calculated at.
     mutable double m_Plast_ss = -1.0;
 
+    //! `true` if the temperature and pressure have been set successfully, that is, if
+    //! the density can be evaluated at the current state
+    bool m_stateDefined = false;
+
     //! Storage for the PDSS objects for the species
     /*!
      *  Storage is in species index order. VPStandardStateTp owns each of the
diff --git a/src/thermo/GibbsExcessVPSSTP.cpp b/src/thermo/GibbsExcessVPSSTP.cpp
index 8c625b1..7ebf08c 100644
--- a/src/thermo/GibbsExcessVPSSTP.cpp
+++ b/src/thermo/GibbsExcessVPSSTP.cpp
@@ -23,8 +23,8 @@ namespace Cantera
 
 void GibbsExcessVPSSTP::compositionChanged()
 {
-    Phase::compositionChanged();
     getMoleFractions(moleFractions_.data());
+    VPStandardStateTP::compositionChanged();
 }
 
 // ------------ Mechanical Properties ------------------------------
diff --git a/src/thermo/VPStandardStateTP.cpp b/src/thermo/VPStandardStateTP.cpp
index 37d7e19..181506f 100644
--- a/src/thermo/VPStandardStateTP.cpp
+++ b/src/thermo/VPStandardStateTP.cpp
@@ -204,6 +204,15 @@ void VPStandardStateTP::calcDensity()
     Phase::assignDensity(dd);
 }
 
+void VPStandardStateTP::compositionChanged()
+{
+    Phase::compositionChanged();
+    // If T and P have not been set successfully, the density is updated once they are
+    if (m_stateDefined && m_Vss.size() == m_kk) {
+        calcDensity();
+    }
+}
+
 void VPStandardStateTP::setState_TP(double t, double pres)
 {
     // A pretty tricky algorithm is needed here, due to problems involving
@@ -212,6 +221,7 @@ void VPStandardStateTP::setState_TP(double t, double pres)
     // the forbidden zone, especially when nearing the triple point. Therefore,
     // we need to do the standard state thermo calc with the (t, pres) combo.
     Phase::setTemperature(t);
+    m_stateDefined = false;
     m_Pcurrent = pres;
     updateStandardStateThermo();
 
@@ -222,6 +232,7 @@ void VPStandardStateTP::setState_TP(double t, double pres)
     // m_plast, so some calculations may still need to be done at the
     // ThermoPhase object level.
     calcDensity();
+    m_stateDefined = true;
 }
 
 void VPStandardStateTP::installPDSS(size_t k, unique_ptr<PDSS>&& pdss)
-- 
2.43.0


From ac31fb0f947aa3a8032f316645fb902f4edb9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:01 +0000
Subject: [PATCH 002/127] fix: update sublattices of compound-lattice phases
 when restoring a state

Restoring a saved state (or setting unnormalized mole fractions) of a
LatticeSolidPhase did not pass the composition to the sublattice phases, so all
properties except the mole fractions remained those of the previous state.
---
 include/cantera/thermo/LatticeSolidPhase.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cantera/thermo/LatticeSolidPhase.h b/include/cantera/thermo/LatticeSolidPhase.h
index 040d7c8..8fc3eb9 100644
--- a/include/cantera/thermo/LatticeSolidPhase.h
+++ b/include/cantera/thermo/LatticeSolidPhase.h
@@ -277,6 +277,12 @@ public:
      */
     void setMoleFractions(const double* const x) override;
 
+    //! Set the mole fractions. Since the composition of each sublattice is always
+    //! normalized, this is the same as setMoleFractions().
+    void setMoleFractions_NoNorm(const double* const x) override {
+        setMoleFractions(x);
+    }
+
     //! Get the species mole fraction vector.
     /*!
      * On output the mole fraction vector will sum to one for each of the
-- 
2.43.0


From 6205b919f3698dac1944c1f7ade6bfa6e58841d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 003/127] fix: evaluate equilibrium constants at current
 pressure

Standard chemical potentials cached by BulkKinetics::updateROP are only refreshed
when temperature or density change; getEquilibriumConstants and
applyEquilibriumConstants_ddT combined them with the current pressure after a
composition-only change.
---
 src/kinetics/BulkKinetics.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 0b6ce9b..adc4a6c 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -172,8 +172,12 @@ void BulkKinetics::getEquilibriumConstants(double* kc)
     vector<double>& delta_gibbs0 = m_rbuf0;
     fill(delta_gibbs0.begin(), delta_gibbs0.end(), 0.0);
 
-    // compute Delta G^0 for all reactions
-    getReactionDelta(m_grt.data(), delta_gibbs0.data());
+    // compute Delta G^0 for all reactions. Standard chemical potentials need to be
+    // evaluated at the current pressure, which can differ from the one last used in
+    // updateROP() if only the composition changed.
+    vector<double>& grt = m_sbuf0;
+    thermo().getStandardChemPotentials(grt.data());
+    getReactionDelta(grt.data(), delta_gibbs0.data());
 
     double rrt = 1.0 / thermo().RT();
     double logStandConc = log(thermo().standardConcentration());
@@ -572,6 +576,12 @@ void BulkKinetics::applyEquilibriumConstants_ddT(double* drkcn)
     vector<double>& delta_gibbs0 = m_rbuf1;
     fill(delta_gibbs0.begin(), delta_gibbs0.end(), 0.0);
 
+    // compute Delta G^0 for all reversible reactions at the current state; values from
+    // updateROP() may correspond to a different pressure if only the composition changed
+    fill(m_delta_gibbs0.begin(), m_delta_gibbs0.end(), 0.0);
+    thermo().getStandardChemPotentials(grt.data());
+    getRevReactionDelta(grt.data(), m_delta_gibbs0.data());
+
     // compute perturbed Delta G^0 for all reversible reactions
     thermo().saveState(m_state);
     thermo().setState_TP(T * (1. + m_jac_rtol_delta), P);
-- 
2.43.0


From 030a5f58c05b6a5df17f0d38205c7d8d14f1106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 004/127] fix: update interface rate data when adjacent phase
 state changes

InterfaceData::update only considered the temperature of the surface phase and the
composition of all phases, so enthalpies, standard chemical potentials and standard
concentrations were not updated if only the temperature or pressure of an adjacent
phase changed.
---
 include/cantera/kinetics/InterfaceRate.h |  8 ++++++++
 src/kinetics/InterfaceRate.cpp           | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/cantera/kinetics/InterfaceRate.h b/include/cantera/kinetics/InterfaceRate.h
index 5fa1307..284447b 100644
--- a/include/cantera/kinetics/InterfaceRate.h
+++ b/include/cantera/kinetics/InterfaceRate.h
@@ -47,6 +47,8 @@ struct InterfaceData : public BlowersMaselData
         electricPotentials.resize(nPhases, 0.);
         standardChemPotentials.resize(nSpecies, 0.);
         standardConcentrations.resize(nSpecies, 0.);
+        m_phaseTemperatures.resize(nPhases, NAN);
+        m_phasePressures.resize(nPhases, NAN);
         ready = true;
     }
 
@@ -57,6 +59,12 @@ struct InterfaceData : public BlowersMaselData
     vector<double> electricPotentials; //!< electric potentials of phases
     vector<double> standardChemPotentials; //!< standard state chemical potentials
     vector<double> standardConcentrations; //!< standard state concentrations
+
+protected:
+    //! temperatures of phases used in the last update
+    vector<double> m_phaseTemperatures;
+    //! pressures of phases used in the last update
+    vector<double> m_phasePressures;
 };
 
 
diff --git a/src/kinetics/InterfaceRate.cpp b/src/kinetics/InterfaceRate.cpp
index 9abaf0d..f4eb5b5 100644
--- a/src/kinetics/InterfaceRate.cpp
+++ b/src/kinetics/InterfaceRate.cpp
@@ -61,6 +61,16 @@ bool InterfaceData::update(const ThermoPhase& phase, const Kinetics& kin)
         sqrtT = sqrt(T);
         changed = true;
     }
+    // properties of adjacent phases also depend on their own temperature and pressure
+    for (size_t n = 0; n < kin.nPhases(); n++) {
+        double phaseT = kin.thermo(n).temperature();
+        double phaseP = kin.thermo(n).pressure();
+        if (phaseT != m_phaseTemperatures[n] || phaseP != m_phasePressures[n]) {
+            m_phaseTemperatures[n] = phaseT;
+            m_phasePressures[n] = phaseP;
+            changed = true;
+        }
+    }
     if (changed || mf != m_state_mf_number) {
         surf.getCoverages(coverages.data());
         for (size_t n = 0; n < coverages.size(); n++) {
-- 
2.43.0


From 0b03278cfb39697ec8b68a09882fc834ee96a8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 005/127] fix: signal default electron energy grid of
 PlasmaPhase to rate evaluators

The grid set by the constructor never incremented the level number, so
electron-collision-plasma rates were evaluated with cross sections that had not been
interpolated onto it.
---
 src/thermo/PlasmaPhase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermo/PlasmaPhase.cpp b/src/thermo/PlasmaPhase.cpp
index ce6d57a..218ff08 100644
--- a/src/thermo/PlasmaPhase.cpp
+++ b/src/thermo/PlasmaPhase.cpp
@@ -24,6 +24,7 @@ PlasmaPhase::PlasmaPhase(const string& inputFile, const string& id_)
 
     // initial grid
     m_electronEnergyLevels = Eigen::ArrayXd::LinSpaced(m_nPoints, 0.0, 1.0);
+    electronEnergyLevelChanged();
 
     // initial electron temperature
     m_electronTemp = temperature();
-- 
2.43.0


From 72003df765c3551b73a8a696755597aa76c53a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 006/127] fix: initialize logarithm of default site density of
 SurfPhase

m_logn0 was only set by setSiteDensity, so chemical potentials, entropies and
equilibrium constants of surface phases without a site density used an
indeterminate value.
---
 include/cantera/thermo/SurfPhase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cantera/thermo/SurfPhase.h b/include/cantera/thermo/SurfPhase.h
index 7d4aa4b..6022bc4 100644
--- a/include/cantera/thermo/SurfPhase.h
+++ b/include/cantera/thermo/SurfPhase.h
@@ -314,7 +314,7 @@ protected:
     vector<double> m_speciesSize;
 
     //! log of the surface site density
-    double m_logn0;
+    double m_logn0 = 0.0;
 
     //! Current value of the pressure (Pa)
     double m_press = OneAtm;
-- 
2.43.0


From 4280ff426b5df6f1d84964474184284573cc46d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 007/127] fix: pass boolean values of reaction rate flags from
 Python to C++

---
 interfaces/cython/cantera/reaction.pxd | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/cython/cantera/reaction.pxd b/interfaces/cython/cantera/reaction.pxd
index cce4e82..a36eb5b 100644
--- a/interfaces/cython/cantera/reaction.pxd
+++ b/interfaces/cython/cantera/reaction.pxd
@@ -48,7 +48,7 @@ cdef extern from "cantera/kinetics/Arrhenius.h" namespace "Cantera":
         double temperatureExponent()
         double activationEnergy()
         cbool allowNegativePreExponentialFactor()
-        void setAllowNegativePreExponentialFactor(bool)
+        void setAllowNegativePreExponentialFactor(cbool)
 
     cdef cppclass CxxArrheniusRate "Cantera::ArrheniusRate" (CxxArrheniusBase):
         CxxArrheniusRate(double, double, double)
@@ -144,9 +144,9 @@ cdef extern from "cantera/kinetics/Falloff.h" namespace "Cantera":
         CxxFalloffRate()
         CxxFalloffRate(CxxAnyMap) except +translate_exception
         cbool allowNegativePreExponentialFactor()
-        void setAllowNegativePreExponentialFactor(bool)
+        void setAllowNegativePreExponentialFactor(cbool)
         cbool chemicallyActivated()
-        void setChemicallyActivated(bool)
+        void setChemicallyActivated(cbool)
         CxxArrheniusRate& lowRate()
         void setLowRate(CxxArrheniusRate&) except +translate_exception
         CxxArrheniusRate& highRate()
-- 
2.43.0


From 05c39d3137b7971a5dea8b2fba7156cf6fd9eebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 008/127] fix: evaluate Blowers-Masel activation energy at
 lower limit of reaction enthalpy

---
 include/cantera/kinetics/BlowersMaselRate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cantera/kinetics/BlowersMaselRate.h b/include/cantera/kinetics/BlowersMaselRate.h
index d10db0b..163d9e4 100644
--- a/include/cantera/kinetics/BlowersMaselRate.h
+++ b/include/cantera/kinetics/BlowersMaselRate.h
@@ -135,7 +135,7 @@ protected:
     //! Return the effective activation energy (a function of the delta H of reaction)
     //! divided by the gas constant (that is, the activation temperature) [K]
     double effectiveActivationEnergy_R(double deltaH_R) const {
-        if (deltaH_R < -4 * m_Ea_R) {
+        if (deltaH_R <= -4 * m_Ea_R) {
             return 0.;
         }
         if (deltaH_R > 4 * m_Ea_R) {
-- 
2.43.0


From 280a14e9addc3cee43261fe8b5885c6513542dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 009/127] fix: report derivative settings of InterfaceKinetics
 under their own names

---
 src/kinetics/InterfaceKinetics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/InterfaceKinetics.cpp b/src/kinetics/InterfaceKinetics.cpp
index 3d6c3e1..9337b9e 100644
--- a/src/kinetics/InterfaceKinetics.cpp
+++ b/src/kinetics/InterfaceKinetics.cpp
@@ -657,8 +657,8 @@ void InterfaceKinetics::setDerivativeSettings(const AnyMap& settings)
 
 void InterfaceKinetics::getDerivativeSettings(AnyMap& settings) const
 {
-    settings["skip-coverage-dependence"] = m_jac_skip_electrochemistry;
-    settings["skip-electrochemistry"] = m_jac_skip_coverage_dependence;
+    settings["skip-coverage-dependence"] = m_jac_skip_coverage_dependence;
+    settings["skip-electrochemistry"] = m_jac_skip_electrochemistry;
     settings["rtol-delta"] = m_jac_rtol_delta;
 }
 
-- 
2.43.0


From 2dd2b1c75f7c0ca066ce5cfdf05198061f2f3a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 010/127] fix: account for reaction rate multipliers in
 numerical derivatives

---
 src/kinetics/BulkKinetics.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index adc4a6c..2132cca 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -612,7 +612,7 @@ void BulkKinetics::process_ddT(const vector<double>& in, double* drop)
     // apply temperature derivative
     copy(in.begin(), in.end(), drop);
     for (auto& rates : m_bulk_rates) {
-        rates->processRateConstants_ddT(drop, m_rfn.data(), m_jac_rtol_delta);
+        rates->processRateConstants_ddT(drop, m_kf0.data(), m_jac_rtol_delta);
     }
 }
 
@@ -621,7 +621,7 @@ void BulkKinetics::process_ddP(const vector<double>& in, double* drop)
     // apply pressure derivative
     copy(in.begin(), in.end(), drop);
     for (auto& rates : m_bulk_rates) {
-        rates->processRateConstants_ddP(drop, m_rfn.data(), m_jac_rtol_delta);
+        rates->processRateConstants_ddP(drop, m_kf0.data(), m_jac_rtol_delta);
     }
 }
 
@@ -654,7 +654,7 @@ void BulkKinetics::process_ddC(StoichManagerN& stoich, const vector<double>& in,
         for (auto& rates : m_bulk_rates) {
             // processing step assigns zeros to entries not dependent on M
             rates->processRateConstants_ddM(
-                outM.data(), m_rfn.data(), m_jac_rtol_delta);
+                outM.data(), m_kf0.data(), m_jac_rtol_delta);
         }
         out += outM;
     }
@@ -693,7 +693,7 @@ Eigen::SparseMatrix<double> BulkKinetics::calculateCompositionDerivatives(
         for (auto& rates : m_bulk_rates) {
             // processing step does not modify entries not dependent on M
             rates->processRateConstants_ddM(
-                outV.data(), m_rfn.data(), m_jac_rtol_delta, false);
+                outV.data(), m_kf0.data(), m_jac_rtol_delta, false);
         }
     }
 
-- 
2.43.0


From ebc6092cedf701b126ba9821dbff712ef111c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 011/127] fix: drop falloff terms from composition derivatives
 if skip-falloff is set

---
 src/kinetics/BulkKinetics.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 2132cca..7a4fa7d 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -695,6 +695,9 @@ Eigen::SparseMatrix<double> BulkKinetics::calculateCompositionDerivatives(
             rates->processRateConstants_ddM(
                 outV.data(), m_kf0.data(), m_jac_rtol_delta, false);
         }
+    } else {
+        // omit entries where third bodies only affect the rate constant
+        m_multi_concm.scaleM(outV.data(), outV.data(), m_concm.data(), 0.);
     }
 
     // derivatives handled by ThirdBodyCalc
-- 
2.43.0


From 95390c805a8635b488cfd8c6c6ace66133315abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 012/127] fix: return matrix of zeros with correct shape if
 there are no stoichiometric coefficients

---
 interfaces/cython/cantera/kinetics.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cython/cantera/kinetics.pyx b/interfaces/cython/cantera/kinetics.pyx
index 90ed837..e5e081b 100644
--- a/interfaces/cython/cantera/kinetics.pyx
+++ b/interfaces/cython/cantera/kinetics.pyx
@@ -34,7 +34,7 @@ cdef np.ndarray get_reaction_array(Kinetics kin, kineticsMethod1d method):
 cdef np.ndarray get_dense(CxxSparseMatrix& smat):
     cdef size_t length = smat.nonZeros()
     if length == 0:
-        return np.zeros((smat.rows(), 0))
+        return np.zeros((smat.rows(), smat.cols()))
 
     # index/value triplets
     cdef np.ndarray[int, ndim=1, mode="c"] rows = np.empty(length, dtype=c_int)
-- 
2.43.0


From 0649c07d931f62ac1ad5fdd555aad01e4dd02906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 013/127] fix: evaluate composition derivatives at zero
 concentration for general reaction orders

---
 include/cantera/kinetics/StoichManager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cantera/kinetics/StoichManager.h b/include/cantera/kinetics/StoichManager.h
index 0f930a3..dcdec71 100644
--- a/include/cantera/kinetics/StoichManager.h
+++ b/include/cantera/kinetics/StoichManager.h
@@ -407,10 +407,10 @@ public:
             // calculate derivative
             double prod = R[m_rxn];
             double order_i = m_order[i];
-            if (S[m_ic[i]] > 0. && order_i != 0.) {
+            if (order_i != 0. && (S[m_ic[i]] > 0. || (S[m_ic[i]] == 0. && order_i >= 1.))) {
                 prod *= order_i * std::pow(S[m_ic[i]], order_i - 1);
                 for (size_t j = 0; j < m_n; j++) {
-                    if (i != j) {
+                    if (i != j && m_order[j] != 0.) {
                         if (S[m_ic[j]] > 0) {
                             prod *= std::pow(S[m_ic[j]], m_order[j]);
                         } else {
-- 
2.43.0


From af4b86645d531c30678b201567a3c15c91e582f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:18 +0000
Subject: [PATCH 014/127] fix: restore state of pure fluids after an
 unsuccessful state setter

---
 include/cantera/tpx/Sub.h     |  3 +++
 src/thermo/PureFluidPhase.cpp |  2 +-
 src/tpx/Sub.cpp               | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/cantera/tpx/Sub.h b/include/cantera/tpx/Sub.h
index 4df2e1d..3239ec6 100644
--- a/include/cantera/tpx/Sub.h
+++ b/include/cantera/tpx/Sub.h
@@ -212,6 +212,9 @@ protected:
     void update_sat();
 
 private:
+    //! Implementation of Set(); may leave behind a trial state when throwing
+    void setState(PropertyPair::type XY, double x0, double y0);
+
     void set_Rho(double r0);
     void set_T(double t0);
     void set_v(double v0);
diff --git a/src/thermo/PureFluidPhase.cpp b/src/thermo/PureFluidPhase.cpp
index 3e45009..b6e5704 100644
--- a/src/thermo/PureFluidPhase.cpp
+++ b/src/thermo/PureFluidPhase.cpp
@@ -131,8 +131,8 @@ void PureFluidPhase::setPressure(double p)
 
 void PureFluidPhase::setTemperature(double T)
 {
-    ThermoPhase::setTemperature(T);
     Set(tpx::PropertyPair::TV, T, m_sub->v());
+    ThermoPhase::setTemperature(T);
 }
 
 void PureFluidPhase::setDensity(double rho)
diff --git a/src/tpx/Sub.cpp b/src/tpx/Sub.cpp
index b9c9ea8..6d69c43 100644
--- a/src/tpx/Sub.cpp
+++ b/src/tpx/Sub.cpp
@@ -331,6 +331,20 @@ static const double TolAbsT = 1.e-3;
 static const double TolRel = 1.e-8;
 
 void Substance::Set(PropertyPair::type XY, double x0, double y0)
+{
+    double Tsave = T;
+    double Rhosave = Rho;
+    try {
+        setState(XY, x0, y0);
+    } catch (CanteraError&) {
+        // Do not leave behind the last trial state of an unsuccessful iteration
+        T = Tsave;
+        Rho = Rhosave;
+        throw;
+    }
+}
+
+void Substance::setState(PropertyPair::type XY, double x0, double y0)
 {
     double temp;
 
-- 
2.43.0


From d3b9cbc78d3b77e52bec742721df6c5ef4a96634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 015/127] fix: use consistent units for heat capacity of
 temperature dependent standard volume

---
 src/thermo/PDSS_SSVol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermo/PDSS_SSVol.cpp b/src/thermo/PDSS_SSVol.cpp
index 6593a98..6aa2b9b 100644
--- a/src/thermo/PDSS_SSVol.cpp
+++ b/src/thermo/PDSS_SSVol.cpp
@@ -128,7 +128,7 @@ void PDSS_SSVol::setPressure(double p)
         m_hss_RT = m_h0_RT + sV_term + del_pRT * m_Vss;
         m_sss_R = m_s0_R + sV_term;
         m_gss_RT = m_hss_RT - m_sss_R;
-        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_;
+        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_ / GasConstant;
     }
 }
 
@@ -150,7 +150,7 @@ void PDSS_SSVol::setTemperature(double temp)
         m_hss_RT = m_h0_RT + sV_term + del_pRT * m_Vss;
         m_sss_R = m_s0_R + sV_term;
         m_gss_RT = m_hss_RT - m_sss_R;
-        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_;
+        m_cpss_R = m_cp0_R - m_temp * deltaP * d2VdT2_ / GasConstant;
     }
 }
 
-- 
2.43.0


From a75810aea4f9be10cbe7901977d455445593c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 016/127] fix: equivalence_ratio(include_species=...) restores
 the state when it raises

---
 interfaces/cython/cantera/thermo.pyx | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/interfaces/cython/cantera/thermo.pyx b/interfaces/cython/cantera/thermo.pyx
index b091f70..4854760 100644
--- a/interfaces/cython/cantera/thermo.pyx
+++ b/interfaces/cython/cantera/thermo.pyx
@@ -964,6 +964,9 @@ cdef class ThermoPhase(_SolutionBase):
             List of species names (optional). Only these species are considered for the
             computation of the equivalence ratio. By default, all species are considered
         """
+        cdef np.ndarray[np.double_t, ndim=1] f
+        cdef np.ndarray[np.double_t, ndim=1] o
+
         if include_species is not None:
             # remove unwanted species temporarily
             Y = np.zeros(self.n_species)
@@ -973,23 +976,21 @@ cdef class ThermoPhase(_SolutionBase):
             T_orig, P_orig, Y_orig = self.T, self.P, self.Y
             self.Y = Y
 
-        if fuel is None and oxidizer is None:
-            phi = self.thermo.equivalenceRatio()
-            if include_species is not None:
-                self.TPY = T_orig, P_orig, Y_orig
-            return phi
+        try:
+            if fuel is None and oxidizer is None:
+                return self.thermo.equivalenceRatio()
 
-        cdef np.ndarray[np.double_t, ndim=1] f = np.ascontiguousarray(
+            f = np.ascontiguousarray(
                 self.__composition_to_array(fuel, basis), dtype=np.double)
-        cdef np.ndarray[np.double_t, ndim=1] o = np.ascontiguousarray(
+            o = np.ascontiguousarray(
                 self.__composition_to_array(oxidizer, basis), dtype=np.double)
 
-        phi = self.thermo.equivalenceRatio(&f[0], &o[0],
-                                           ThermoBasis.mass if basis=="mass"
-                                                            else ThermoBasis.molar)
-        if include_species is not None:
-            self.TPY = T_orig, P_orig, Y_orig
-        return phi
+            return self.thermo.equivalenceRatio(&f[0], &o[0],
+                                                ThermoBasis.mass if basis=="mass"
+                                                                 else ThermoBasis.molar)
+        finally:
+            if include_species is not None:
+                self.TPY = T_orig, P_orig, Y_orig
 
     def mixture_fraction(self, fuel, oxidizer, basis='mole', element="Bilger"):
         r"""
-- 
2.43.0


From f633bb7768583304a65070ab9358afb4e367a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:26 +0000
Subject: [PATCH 017/127] fix: check element balance of reactions with third
 bodies

---
 src/kinetics/Reaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index aa88c39..37d11bb 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -702,8 +702,8 @@ bool Reaction::checkSpecies(const Kinetics& kin) const
         }
     }
 
-    if (m_third_body) {
-        return m_third_body->checkSpecies(*this, kin);
+    if (m_third_body && !m_third_body->checkSpecies(*this, kin)) {
+        return false;
     }
 
     checkBalance(kin);
-- 
2.43.0


From 28e6a3dd176096f88a8ba866b929a34c46cbc70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 018/127] fix: detect charge imbalance of reactions among
 cations

---
 src/kinetics/Reaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index 37d11bb..58782fd 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -624,7 +624,7 @@ void Reaction::checkBalance(const Kinetics& kin) const
     string msg;
     bool ok = true;
     for (const auto& [elem, balance] : balr) {
-        double elemsum = balr[elem] + balp[elem];
+        double elemsum = fabs(balr[elem]) + fabs(balp[elem]);
         double elemdiff = fabs(balp[elem] - balr[elem]);
         if (elemsum > 0.0 && elemdiff / elemsum > 1e-4) {
             ok = false;
-- 
2.43.0


From b43dd7a9fed750d03cde52582747a6d1d6098d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:38 +0000
Subject: [PATCH 019/127] fix: creating a Reaction with undeclared species from
 text or dict no longer crashes

---
 interfaces/cython/cantera/reaction.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interfaces/cython/cantera/reaction.pyx b/interfaces/cython/cantera/reaction.pyx
index 3c7a7ce..1e9d4e1 100644
--- a/interfaces/cython/cantera/reaction.pyx
+++ b/interfaces/cython/cantera/reaction.pyx
@@ -1485,7 +1485,9 @@ cdef class Reaction:
         R = Reaction(init=False)
         R._reaction = reaction
         R.reaction = R._reaction.get()
-        R._rate = ReactionRate.wrap(R.reaction.rate())
+        if R.reaction.rate().get() != NULL:
+            # reactions with undeclared species do not have a rate
+            R._rate = ReactionRate.wrap(R.reaction.rate())
         return R
 
     @classmethod
-- 
2.43.0


From f15e01c362d9ddf0921576241d38cecab7785cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:38 +0000
Subject: [PATCH 020/127] fix: undeclared duplicate reactions are detected
 regardless of the reactions compared before

---
 src/kinetics/Kinetics.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index d382dce..a05d6c9 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -244,15 +244,18 @@ double Kinetics::checkDuplicateStoich(map<int, double>& r1, map<int, double>& r2
         keys.insert(speciesKey);
     }
     int k1 = r1.begin()->first;
+    // Look up coefficients without adding entries to the maps
+    auto c1 = [&r1](int k) { return getValue(r1, k, 0.0); };
+    auto c2 = [&r2](int k) { return getValue(r2, k, 0.0); };
     // check for duplicate written in the same direction
     double ratio = 0.0;
-    if (r1[k1] && r2[k1]) {
-        ratio = r2[k1]/r1[k1];
+    if (c1(k1) && c2(k1)) {
+        ratio = c2(k1)/c1(k1);
         bool different = false;
         for (int k : keys) {
-            if ((r1[k] && !r2[k]) ||
-                (!r1[k] && r2[k]) ||
-                (r1[k] && fabs(r2[k]/r1[k] - ratio) > 1.e-8)) {
+            if ((c1(k) && !c2(k)) ||
+                (!c1(k) && c2(k)) ||
+                (c1(k) && fabs(c2(k)/c1(k) - ratio) > 1.e-8)) {
                 different = true;
                 break;
             }
@@ -263,14 +266,14 @@ double Kinetics::checkDuplicateStoich(map<int, double>& r1, map<int, double>& r2
     }
 
     // check for duplicate written in the reverse direction
-    if (r1[k1] == 0.0 || r2[-k1] == 0.0) {
+    if (c1(k1) == 0.0 || c2(-k1) == 0.0) {
         return 0.0;
     }
-    ratio = r2[-k1]/r1[k1];
+    ratio = c2(-k1)/c1(k1);
     for (int k : keys) {
-        if ((r1[k] && !r2[-k]) ||
-            (!r1[k] && r2[-k]) ||
-            (r1[k] && fabs(r2[-k]/r1[k] - ratio) > 1.e-8)) {
+        if ((c1(k) && !c2(-k)) ||
+            (!c1(k) && c2(-k)) ||
+            (c1(k) && fabs(c2(-k)/c1(k) - ratio) > 1.e-8)) {
             return 0.0;
         }
     }
-- 
2.43.0


From c4d236e1b5e0fdcac8ccefe7c3b8b19dd25c2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:38 +0000
Subject: [PATCH 021/127] fix: a declared duplicate needs a partner with the
 same stoichiometry

---
 src/kinetics/Kinetics.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index a05d6c9..bc1b78e 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -139,8 +139,10 @@ pair<size_t, size_t> Kinetics::checkDuplicates(bool throw_err) const
             Reaction& other = *m_reactions[m];
             if (R.duplicate && other.duplicate) {
                 // marked duplicates
-                unmatched_duplicates.erase(i);
-                unmatched_duplicates.erase(m);
+                if (checkDuplicateStoich(net_stoich[i], net_stoich[m]) != 0) {
+                    unmatched_duplicates.erase(i);
+                    unmatched_duplicates.erase(m);
+                }
                 continue;
             } else if (R.type() != other.type()) {
                 continue; // different reaction types
-- 
2.43.0


From 706de58c58d80cce94fee594eee8fea1deca3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:16 +0000
Subject: [PATCH 022/127] fix: an interface reaction refused because of its
 rate leaves the mechanism unchanged

---
 src/kinetics/BulkKinetics.cpp      | 2 --
 src/kinetics/InterfaceKinetics.cpp | 2 --
 src/kinetics/Kinetics.cpp          | 6 ++++++
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 7a4fa7d..d4fe46b 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -54,7 +54,6 @@ bool BulkKinetics::addReaction(shared_ptr<Reaction> r, bool resize)
 
     // Set index of rate to number of reaction within kinetics
     rate->setRateIndex(nReactions() - 1);
-    rate->setContext(*r, *this);
 
     // Add reaction rate to evaluator
     size_t index = m_bulk_types[rtype];
@@ -110,7 +109,6 @@ void BulkKinetics::modifyReaction(size_t i, shared_ptr<Reaction> rNew)
     // Replace reaction rate to evaluator
     size_t index = m_bulk_types[rtype];
     rate->setRateIndex(i);
-    rate->setContext(*rNew, *this);
     m_bulk_rates[index]->replace(i, *rate);
     invalidateCache();
 }
diff --git a/src/kinetics/InterfaceKinetics.cpp b/src/kinetics/InterfaceKinetics.cpp
index 9337b9e..52c2a64 100644
--- a/src/kinetics/InterfaceKinetics.cpp
+++ b/src/kinetics/InterfaceKinetics.cpp
@@ -412,7 +412,6 @@ bool InterfaceKinetics::addReaction(shared_ptr<Reaction> r_base, bool resize)
     // Set index of rate to number of reaction within kinetics
     shared_ptr<ReactionRate> rate = r_base->rate();
     rate->setRateIndex(nReactions() - 1);
-    rate->setContext(*r_base, *this);
 
     string rtype = rate->subType();
     if (rtype == "") {
@@ -449,7 +448,6 @@ void InterfaceKinetics::modifyReaction(size_t i, shared_ptr<Reaction> r_base)
 
     shared_ptr<ReactionRate> rate = r_base->rate();
     rate->setRateIndex(i);
-    rate->setContext(*r_base, *this);
 
     string rtype = rate->subType();
     if (rtype == "") {
diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index bc1b78e..5ee4bb9 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -637,6 +637,9 @@ bool Kinetics::addReaction(shared_ptr<Reaction> r, bool resize)
         r->rate()->setRateUnits(r->calculateRateCoeffUnits(*this));
     }
 
+    // Set up the rate before changing any tables, since this can fail
+    r->rate()->setContext(*r, *this);
+
     size_t irxn = nReactions(); // index of the new reaction
 
     // indices of reactant and product species within this Kinetics object
@@ -741,6 +744,9 @@ void Kinetics::modifyReaction(size_t i, shared_ptr<Reaction> rNew)
             "Products are different: '{}' != '{}'.",
             rOld->productString(), rNew->productString());
     }
+
+    // Set up the rate before replacing the reaction, since this can fail
+    rNew->rate()->setContext(*rNew, *this);
     m_reactions[i] = rNew;
     invalidateCache();
 }
-- 
2.43.0


From ce7095aa0f20b030c3884f838a1884ba12ed8606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:09 +0000
Subject: [PATCH 023/127] fix: a species that is refused leaves the phase
 unchanged

Check elements, charge, thermo data and reference pressure before modifying the
phase, and restore the previous species when a replacement is refused.
---
 src/thermo/MultiSpeciesThermo.cpp |  5 ++++
 src/thermo/Phase.cpp              | 47 +++++++++++++++----------------
 src/thermo/ThermoPhase.cpp        | 20 +++++++++++--
 3 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/src/thermo/MultiSpeciesThermo.cpp b/src/thermo/MultiSpeciesThermo.cpp
index 49a6411..1bc6073 100644
--- a/src/thermo/MultiSpeciesThermo.cpp
+++ b/src/thermo/MultiSpeciesThermo.cpp
@@ -68,6 +68,11 @@ void MultiSpeciesThermo::modifySpecies(size_t index,
                            "Type of parameterization changed: {} != {}", type,
                            m_speciesLoc[index].first);
     }
+    if (fabs(m_p0 - spthermo->refPressure()) > 1e-6) {
+        throw CanteraError("MultiSpeciesThermo::modifySpecies",
+            "Cannot change reference pressure from {} to {}",
+            m_p0, spthermo->refPressure());
+    }
     if (spthermo->minTemp() > m_tlow_max) {
         throw CanteraError("MultiSpeciesThermo::modifySpecies",
             "Cannot increase minimum temperature for phase from {} to {}",
diff --git a/src/thermo/Phase.cpp b/src/thermo/Phase.cpp
index 86fc84b..514db4a 100644
--- a/src/thermo/Phase.cpp
+++ b/src/thermo/Phase.cpp
@@ -713,18 +713,15 @@ bool Phase::addSpecies(shared_ptr<Species> spec)
             m_name, spec->name);
     }
 
-    vector<double> comp(nElements());
+    // Check that the species can be added before making any changes to the phase
     for (const auto& [eName, stoich] : spec->composition) {
-        size_t m = elementIndex(eName);
-        if (m == npos) { // Element doesn't exist in this phase
+        if (elementIndex(eName) == npos) { // Element doesn't exist in this phase
             switch (m_undefinedElementBehavior) {
             case UndefElement::ignore:
                 return false;
 
             case UndefElement::add:
-                addElement(eName);
-                comp.resize(nElements());
-                m = elementIndex(eName);
+                getElementWeight(eName); // throws if the element is unknown
                 break;
 
             case UndefElement::error:
@@ -734,33 +731,35 @@ bool Phase::addSpecies(shared_ptr<Species> spec)
                     spec->name, eName);
             }
         }
+    }
+    double ecomp = getValue(spec->composition, string("E"), 0.0);
+    if (spec->charge != 0.0 && ecomp != 0.0 && fabs(spec->charge + ecomp) > 0.001) {
+        throw CanteraError("Phase::addSpecies",
+                           "Input charge and element E compositions differ "
+                           "for species " + spec->name);
+    }
+
+    vector<double> comp(nElements());
+    for (const auto& [eName, stoich] : spec->composition) {
+        size_t m = elementIndex(eName);
+        if (m == npos) {
+            m = addElement(eName);
+            comp.resize(nElements());
+        }
         comp[m] = stoich;
     }
 
     size_t ne = nElements();
     const vector<double>& aw = atomicWeights();
-    if (spec->charge != 0.0) {
+    if (spec->charge != 0.0 && ecomp == 0.0) {
+        // Set the element E composition based on the input species charge
         size_t eindex = elementIndex("E");
-        if (eindex != npos) {
-            double ecomp = comp[eindex];
-            if (fabs(spec->charge + ecomp) > 0.001) {
-                if (ecomp != 0.0) {
-                    throw CanteraError("Phase::addSpecies",
-                                       "Input charge and element E compositions differ "
-                                       "for species " + spec->name);
-                } else {
-                    // Just fix up the element E composition based on the input
-                    // species charge
-                    comp[eindex] = -spec->charge;
-                }
-            }
-        } else {
-            addElement("E", 0.000545, 0, 0.0, CT_ELEM_TYPE_ELECTRONCHARGE);
+        if (eindex == npos) {
+            eindex = addElement("E", 0.000545, 0, 0.0, CT_ELEM_TYPE_ELECTRONCHARGE);
             ne = nElements();
-            eindex = elementIndex("E");
             comp.resize(ne);
-            comp[ne - 1] = - spec->charge;
         }
+        comp[eindex] = -spec->charge;
     }
 
     double wt = 0.0;
diff --git a/src/thermo/ThermoPhase.cpp b/src/thermo/ThermoPhase.cpp
index 2b3993b..6414ff3 100644
--- a/src/thermo/ThermoPhase.cpp
+++ b/src/thermo/ThermoPhase.cpp
@@ -1057,9 +1057,17 @@ bool ThermoPhase::addSpecies(shared_ptr<Species> spec)
         throw CanteraError("ThermoPhase::addSpecies",
             "Species {} has no thermo data", spec->name);
     }
+    // Check that the thermo data can be used before making any changes
+    spec->thermo->validate(spec->name);
+    double p0 = m_spthermo.refPressure();
+    if (p0 != 0 && fabs(p0 - spec->thermo->refPressure()) > 1e-6) {
+        throw CanteraError("ThermoPhase::addSpecies",
+            "Cannot add species {} with reference pressure {}.\n"
+            "Inconsistent with previously-added species with reference pressure {}.",
+            spec->name, spec->thermo->refPressure(), p0);
+    }
     bool added = Phase::addSpecies(spec);
     if (added) {
-        spec->thermo->validate(spec->name);
         m_spthermo.install_STIT(m_kk-1, spec->thermo);
     }
     return added;
@@ -1071,14 +1079,20 @@ void ThermoPhase::modifySpecies(size_t k, shared_ptr<Species> spec)
         throw CanteraError("ThermoPhase::modifySpecies",
             "Species {} has no thermo data", spec->name);
     }
-    Phase::modifySpecies(k, spec);
     if (speciesName(k) != spec->name) {
         throw CanteraError("ThermoPhase::modifySpecies",
             "New species '{}' does not match existing species '{}' at index {}",
                            spec->name, speciesName(k), k);
     }
     spec->thermo->validate(spec->name);
-    m_spthermo.modifySpecies(k, spec->thermo);
+    auto old = species(k);
+    Phase::modifySpecies(k, spec);
+    try {
+        m_spthermo.modifySpecies(k, spec->thermo);
+    } catch (CanteraError&) {
+        Phase::modifySpecies(k, old);
+        throw;
+    }
 }
 
 void ThermoPhase::setParameters(const AnyMap& phaseNode, const AnyMap& rootNode)
-- 
2.43.0


From 68c136f9d3e6c3475e1a74284c011ce5d45c3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:09 +0000
Subject: [PATCH 024/127] fix: a second electron species is refused before it
 is added

---
 src/thermo/PlasmaPhase.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/thermo/PlasmaPhase.cpp b/src/thermo/PlasmaPhase.cpp
index 218ff08..573c361 100644
--- a/src/thermo/PlasmaPhase.cpp
+++ b/src/thermo/PlasmaPhase.cpp
@@ -273,19 +273,17 @@ void PlasmaPhase::setParameters(const AnyMap& phaseNode, const AnyMap& rootNode)
 
 bool PlasmaPhase::addSpecies(shared_ptr<Species> spec)
 {
+    bool isElectron = spec->composition.find("E") != spec->composition.end() &&
+                      spec->composition.size() == 1 &&
+                      spec->composition["E"] == 1;
+    if (isElectron && m_electronSpeciesIndex != npos) {
+        throw CanteraError("PlasmaPhase::addSpecies",
+                           "Cannot add species, {}. "
+                           "Only one electron species is allowed.", spec->name);
+    }
     bool added = IdealGasPhase::addSpecies(spec);
-    size_t k = m_kk - 1;
-
-    if (spec->composition.find("E") != spec->composition.end() &&
-        spec->composition.size() == 1 &&
-        spec->composition["E"] == 1) {
-        if (m_electronSpeciesIndex == npos) {
-            m_electronSpeciesIndex = k;
-        } else {
-            throw CanteraError("PlasmaPhase::addSpecies",
-                               "Cannot add species, {}. "
-                               "Only one electron species is allowed.", spec->name);
-        }
+    if (added && isElectron) {
+        m_electronSpeciesIndex = m_kk - 1;
     }
     return added;
 }
-- 
2.43.0


From 754dda9406241cd452bb7aa62a9dcb857f29bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:09 +0000
Subject: [PATCH 025/127] fix: adding a species keeps the cubic EoS
 coefficients of existing species

---
 src/thermo/PengRobinson.cpp     |  9 ++++++++-
 src/thermo/RedlichKwongMFTP.cpp | 11 ++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/thermo/PengRobinson.cpp b/src/thermo/PengRobinson.cpp
index 82d0db4..6d9162e 100644
--- a/src/thermo/PengRobinson.cpp
+++ b/src/thermo/PengRobinson.cpp
@@ -319,7 +319,14 @@ bool PengRobinson::addSpecies(shared_ptr<Species> spec)
 {
     bool added = MixtureFugacityTP::addSpecies(spec);
     if (added) {
-        m_a_coeffs.resize(m_kk, m_kk, 0.0);
+        Array2D a_prev = m_a_coeffs;
+        m_a_coeffs = Array2D(m_kk, m_kk, 0.0);
+        // Keep coefficients for previously-added species
+        for (size_t i = 0; i < m_kk - 1; i++) {
+            for (size_t j = 0; j < m_kk - 1; j++) {
+                m_a_coeffs(i, j) = a_prev(i, j);
+            }
+        }
         m_b_coeffs.push_back(0.0);
         m_aAlpha_binary.resize(m_kk, m_kk, 0.0);
         m_kappa.push_back(0.0);
diff --git a/src/thermo/RedlichKwongMFTP.cpp b/src/thermo/RedlichKwongMFTP.cpp
index b3e05de..551e096 100644
--- a/src/thermo/RedlichKwongMFTP.cpp
+++ b/src/thermo/RedlichKwongMFTP.cpp
@@ -359,7 +359,16 @@ bool RedlichKwongMFTP::addSpecies(shared_ptr<Species> spec)
         // Initialize a_vec and b_vec to NaN, to screen for species with
         //     pureFluidParameters which are undefined in the input file:
         b_vec_Curr_.push_back(NAN);
-        a_coeff_vec.resize(2, m_kk * m_kk, NAN);
+        Array2D a_prev = a_coeff_vec;
+        a_coeff_vec = Array2D(2, m_kk * m_kk, NAN);
+        // Keep coefficients for previously-added species
+        size_t nPrev = m_kk - 1;
+        for (size_t i = 0; i < nPrev; i++) {
+            for (size_t j = 0; j < nPrev; j++) {
+                a_coeff_vec(0, i + m_kk * j) = a_prev(0, i + nPrev * j);
+                a_coeff_vec(1, i + m_kk * j) = a_prev(1, i + nPrev * j);
+            }
+        }
 
         m_pp.push_back(0.0);
         m_coeffSource.push_back(CoeffSource::EoS);
-- 
2.43.0


From f0b456ea02650a9178eb833deb624238d5d34d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:09 +0000
Subject: [PATCH 026/127] fix: gas transport properties are updated when
 species are added to the phase

---
 src/transport/GasTransport.cpp    | 1 +
 src/transport/IonGasTransport.cpp | 6 ++++++
 src/transport/MultiTransport.cpp  | 7 ++++---
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/transport/GasTransport.cpp b/src/transport/GasTransport.cpp
index 02e0f70..dc245cc 100644
--- a/src/transport/GasTransport.cpp
+++ b/src/transport/GasTransport.cpp
@@ -30,6 +30,7 @@ void GasTransport::update_T()
     if (m_thermo->nSpecies() != m_nsp) {
         // Rebuild data structures if number of species has changed
         init(m_thermo, m_mode);
+        invalidateCache();
     }
 
     double T = m_thermo->temperature();
diff --git a/src/transport/IonGasTransport.cpp b/src/transport/IonGasTransport.cpp
index 0f54a42..d00ab91 100644
--- a/src/transport/IonGasTransport.cpp
+++ b/src/transport/IonGasTransport.cpp
@@ -23,6 +23,12 @@ void IonGasTransport::init(ThermoPhase* thermo, int mode)
         throw CanteraError("IonGasTransport::init",
                            "mode = CK_Mode, which is an outdated lower-order fit.");
     }
+    // discard data from previous initialization
+    m_speciesCharge.clear();
+    m_kIon.clear();
+    m_kNeutral.clear();
+    m_kElectron = npos;
+
     // make a local copy of species charge
     for (size_t k = 0; k < m_nsp; k++) {
         m_speciesCharge.push_back(m_thermo->charge(k));
diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index fb98f4e..b814de6 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -117,6 +117,7 @@ double MultiTransport::pressure_ig()
 void MultiTransport::solveLMatrixEquation()
 {
     // if T has changed, update the temperature-dependent properties.
+    update_T();
     updateThermal_T();
     update_C();
     if (m_lmatrix_soln_ok) {
@@ -360,13 +361,13 @@ void MultiTransport::getMultiDiffCoeffs(const size_t ld, double* const d)
 {
     double p = pressure_ig();
 
-    // update the mole fractions
-    update_C();
-
     // update the binary diffusion coefficients
     update_T();
     updateThermal_T();
 
+    // update the mole fractions
+    update_C();
+
     // evaluate L0000 if the temperature or concentrations have
     // changed since it was last evaluated.
     if (!m_l0000_ok) {
-- 
2.43.0


From 8e720e4c1461a096e4eb836a9b9520c27f11c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:04 +0000
Subject: [PATCH 027/127] fix: MassFlowController::setMassFlowRate must not
 delete a function it does not own

---
 src/zeroD/flowControllers.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/zeroD/flowControllers.cpp b/src/zeroD/flowControllers.cpp
index b58337c..d932d86 100644
--- a/src/zeroD/flowControllers.cpp
+++ b/src/zeroD/flowControllers.cpp
@@ -12,9 +12,7 @@ namespace Cantera
 
 void MassFlowController::setMassFlowRate(double mdot)
 {
-    if (m_tfunc) {
-        delete m_tfunc;
-    }
+    m_tfunc = nullptr; // function is not owned by the flow device
     m_coeff = mdot;
 }
 
-- 
2.43.0


From 8a945886517c452120d4282494dc368f9879947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:54 +0000
Subject: [PATCH 028/127] fix: mole reactors remove outflow with their own
 composition and keep surface moles

The outflow of the mole-based reactors used the species of the downstream
mixture: with different mixtures on both sides of a flow device, the wrong
species were removed. Surface species are moles in these reactors, so that
their production rates must not be divided by the site occupancy.
---
 src/zeroD/ConstPressureMoleReactor.cpp         | 5 +++--
 src/zeroD/IdealGasConstPressureMoleReactor.cpp | 5 +++--
 src/zeroD/IdealGasMoleReactor.cpp              | 5 +++--
 src/zeroD/MoleReactor.cpp                      | 7 ++++---
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index 00c6261..dae4179 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -80,13 +80,14 @@ void ConstPressureMoleReactor::eval(double time, double* LHS, double* RHS)
         dndt[n] = m_wdot[n] * m_vol + m_sdot[n];
     }
 
-    // add terms for outlets
+    // add terms for outlets; the stream leaving has the composition of this reactor
+    const double* Y = m_thermo->massFractions();
     for (auto outlet : m_outlet) {
         // determine enthalpy contribution
         dHdt -= outlet->massFlowRate() * m_enthalpy;
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasConstPressureMoleReactor.cpp b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
index 757a6cb..50bdb7a 100644
--- a/src/zeroD/IdealGasConstPressureMoleReactor.cpp
+++ b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
@@ -92,11 +92,12 @@ void IdealGasConstPressureMoleReactor::eval(double time, double* LHS, double* RH
         dndt[n] = m_wdot[n] * m_vol + m_sdot[n];
     }
 
-    // add terms for outlets
+    // add terms for outlets; the stream leaving has the composition of this reactor
+    const double* Y = m_thermo->massFractions();
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
             // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasMoleReactor.cpp b/src/zeroD/IdealGasMoleReactor.cpp
index 5586a7c..27f8d28 100644
--- a/src/zeroD/IdealGasMoleReactor.cpp
+++ b/src/zeroD/IdealGasMoleReactor.cpp
@@ -123,11 +123,12 @@ void IdealGasMoleReactor::eval(double time, double* LHS, double* RHS)
         dndt[n] = (m_wdot[n] * m_vol + m_sdot[n]);
     }
 
-    // add terms for outlets
+    // add terms for outlets; the stream leaving has the composition of this reactor
+    const double* Y = m_thermo->massFractions();
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
             // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
         double mdot = outlet->massFlowRate();
         mcvdTdt -= mdot * m_pressure * m_vol / m_mass; // flow work
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 4859a99..a8e40b2 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -70,7 +70,7 @@ void MoleReactor::evalSurfaces(double* LHS, double* RHS, double* sdot)
         S->syncState();
         kin->getNetProductionRates(&m_work[0]);
         for (size_t k = 0; k < nk; k++) {
-            RHS[loc + k] = m_work[k] * wallarea / surf->size(k);
+            RHS[loc + k] = m_work[k] * wallarea;
         }
         loc += nk;
 
@@ -254,11 +254,12 @@ void MoleReactor::eval(double time, double* LHS, double* RHS)
         dndt[k] = m_wdot[k] * m_vol + m_sdot[k];
     }
 
-    // add terms for outlets
+    // add terms for outlets; the stream leaving has the composition of this reactor
+    const double* Y = m_thermo->massFractions();
     for (auto outlet : m_outlet) {
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
         // energy update based on mass flow
         double mdot = outlet->massFlowRate();
-- 
2.43.0


From f2b89758be9570e34d501e17badf2b61a5708b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:37 +0000
Subject: [PATCH 029/127] fix: sensitivity parameters and component lookup
 address what they name

A reaction registered more than once as a sensitivity parameter kept its
perturbed multiplier; looking up a component that does not exist gave the
index of another reactor's component.
---
 src/zeroD/Reactor.cpp        | 11 ++++++-----
 src/zeroD/ReactorNet.cpp     | 11 ++++++++++-
 src/zeroD/ReactorSurface.cpp |  5 +++--
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/zeroD/Reactor.cpp b/src/zeroD/Reactor.cpp
index 7fac0ec..c9e0271 100644
--- a/src/zeroD/Reactor.cpp
+++ b/src/zeroD/Reactor.cpp
@@ -515,11 +515,12 @@ void Reactor::resetSensitivity(double* params)
     if (!params) {
         return;
     }
-    for (auto& p : m_sensParams) {
-        if (p.type == SensParameterType::reaction) {
-            m_kin->setMultiplier(p.local, p.value);
-        } else if (p.type == SensParameterType::enthalpy) {
-            m_thermo->resetHf298(p.local);
+    // in reverse order, so that a reaction registered more than once is restored
+    for (auto p = m_sensParams.rbegin(); p != m_sensParams.rend(); ++p) {
+        if (p->type == SensParameterType::reaction) {
+            m_kin->setMultiplier(p->local, p->value);
+        } else if (p->type == SensParameterType::enthalpy) {
+            m_thermo->resetHf298(p->local);
         }
     }
     for (auto& S : m_surfaces) {
diff --git a/src/zeroD/ReactorNet.cpp b/src/zeroD/ReactorNet.cpp
index e3ea679..d52591a 100644
--- a/src/zeroD/ReactorNet.cpp
+++ b/src/zeroD/ReactorNet.cpp
@@ -500,7 +500,16 @@ size_t ReactorNet::globalComponentIndex(const string& component, size_t reactor)
     if (!m_init) {
         initialize();
     }
-    return m_start[reactor] + m_reactors[reactor]->componentIndex(component);
+    if (reactor >= m_reactors.size()) {
+        throw IndexError("ReactorNet::globalComponentIndex", "m_reactors",
+                         reactor, m_reactors.size());
+    }
+    size_t k = m_reactors[reactor]->componentIndex(component);
+    if (k == npos) {
+        throw CanteraError("ReactorNet::globalComponentIndex",
+                           "No component named '{}' in reactor {}.", component, reactor);
+    }
+    return m_start[reactor] + k;
 }
 
 string ReactorNet::componentName(size_t i) const
diff --git a/src/zeroD/ReactorSurface.cpp b/src/zeroD/ReactorSurface.cpp
index f811eb4..7a9681b 100644
--- a/src/zeroD/ReactorSurface.cpp
+++ b/src/zeroD/ReactorSurface.cpp
@@ -107,8 +107,9 @@ void ReactorSurface::setSensitivityParameters(const double* params)
 
 void ReactorSurface::resetSensitivityParameters()
 {
-    for (auto& p : m_params) {
-        m_kinetics->setMultiplier(p.local, p.value);
+    // in reverse order, so that a reaction registered more than once is restored
+    for (auto p = m_params.rbegin(); p != m_params.rend(); ++p) {
+        m_kinetics->setMultiplier(p->local, p->value);
     }
 }
 
-- 
2.43.0


From 8b569b6bcbe5738b92265c3ec0fa11e2ff3bb871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:50 +0000
Subject: [PATCH 030/127] fix: reactor network time and contents correspond
 after failures and limits

A failed advance or step left the network at the time and state of the last
trial evaluation; an advance with limits could pass the requested time with its
first internal step; production rates of the last evaluation remained active
after chemistry was disabled.
---
 include/cantera/numerics/CVodesIntegrator.h |  3 +++
 include/cantera/numerics/IdasIntegrator.h   |  3 +++
 include/cantera/numerics/Integrator.h       |  7 +++++
 include/cantera/zeroD/Reactor.h             |  4 +++
 include/cantera/zeroD/ReactorNet.h          |  4 +++
 src/numerics/CVodesIntegrator.cpp           |  3 +++
 src/numerics/IdasIntegrator.cpp             |  3 +++
 src/zeroD/ReactorNet.cpp                    | 30 +++++++++++++++++----
 8 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/include/cantera/numerics/CVodesIntegrator.h b/include/cantera/numerics/CVodesIntegrator.h
index f954cd5..252b623 100644
--- a/include/cantera/numerics/CVodesIntegrator.h
+++ b/include/cantera/numerics/CVodesIntegrator.h
@@ -41,6 +41,9 @@ public:
     double step(double tout) override;
     double& solution(size_t k) override;
     double* solution() override;
+    double currentTime() const override {
+        return m_time;
+    }
     double* derivative(double tout, int n) override;
     int lastOrder() const override;
     int nEquations() const  override{
diff --git a/include/cantera/numerics/IdasIntegrator.h b/include/cantera/numerics/IdasIntegrator.h
index 5560dec..28a1a4b 100644
--- a/include/cantera/numerics/IdasIntegrator.h
+++ b/include/cantera/numerics/IdasIntegrator.h
@@ -41,6 +41,9 @@ public:
     double step(double tout) override;
     double& solution(size_t k) override;
     double* solution() override;
+    double currentTime() const override {
+        return m_time;
+    }
     int nEquations() const override {
         return static_cast<int>(m_neq);
     }
diff --git a/include/cantera/numerics/Integrator.h b/include/cantera/numerics/Integrator.h
index ed7fd41..fb48270 100644
--- a/include/cantera/numerics/Integrator.h
+++ b/include/cantera/numerics/Integrator.h
@@ -166,6 +166,13 @@ public:
         return 0.0;
     }
 
+    //! The time which corresponds to the current value of the solution, also after
+    //! an integration that failed before reaching the requested time.
+    //! @since New in %Cantera 3.2.
+    virtual double currentTime() const {
+        throw NotImplementedError("Integrator::currentTime");
+    }
+
     //! The current value of the solution of equation k.
     virtual double& solution(size_t k) {
         warn("solution");
diff --git a/include/cantera/zeroD/Reactor.h b/include/cantera/zeroD/Reactor.h
index 5266687..25e71c0 100644
--- a/include/cantera/zeroD/Reactor.h
+++ b/include/cantera/zeroD/Reactor.h
@@ -68,6 +68,10 @@ public:
 
     void setChemistry(bool cflag=true) override {
         m_chem = cflag;
+        if (!m_chem) {
+            // no remainder of the rates evaluated while chemistry was enabled
+            std::fill(m_wdot.begin(), m_wdot.end(), 0.0);
+        }
     }
 
     //! Returns `true` if changes in the reactor composition due to chemical reactions
diff --git a/include/cantera/zeroD/ReactorNet.h b/include/cantera/zeroD/ReactorNet.h
index fd8e574..8048db2 100644
--- a/include/cantera/zeroD/ReactorNet.h
+++ b/include/cantera/zeroD/ReactorNet.h
@@ -305,6 +305,10 @@ protected:
 
     void updatePreconditioner(double gamma) override;
 
+    //! Set the time and the contents of the reactors to the last solution of the
+    //! integrator, after an integration which failed at some trial state.
+    void restoreIntegratorState();
+
     //! Create reproducible names for reactors and walls/connectors.
     void updateNames(Reactor& r);
 
diff --git a/src/numerics/CVodesIntegrator.cpp b/src/numerics/CVodesIntegrator.cpp
index 2b95873..091efed 100644
--- a/src/numerics/CVodesIntegrator.cpp
+++ b/src/numerics/CVodesIntegrator.cpp
@@ -492,6 +492,7 @@ void CVodesIntegrator::integrate(double tout)
     int nsteps = 0;
     while (m_tInteg < tout) {
         if (nsteps >= m_maxsteps) {
+            m_time = m_tInteg; // time of the solution that has been reached
             string f_errs = m_func->getErrors();
             if (!f_errs.empty()) {
                 f_errs = "\nExceptions caught during RHS evaluation:\n" + f_errs;
@@ -503,6 +504,7 @@ void CVodesIntegrator::integrate(double tout)
         }
         int flag = CVode(m_cvode_mem, tout, m_y, &m_tInteg, CV_ONE_STEP);
         if (flag != CV_SUCCESS) {
+            m_time = m_tInteg; // time of the solution that has been reached
             string f_errs = m_func->getErrors();
             if (!f_errs.empty()) {
                 f_errs = "Exceptions caught during RHS evaluation:\n" + f_errs;
@@ -525,6 +527,7 @@ double CVodesIntegrator::step(double tout)
 {
     int flag = CVode(m_cvode_mem, tout, m_y, &m_tInteg, CV_ONE_STEP);
     if (flag != CV_SUCCESS) {
+        m_time = m_tInteg; // time of the solution that has been reached
         string f_errs = m_func->getErrors();
         if (!f_errs.empty()) {
             f_errs = "Exceptions caught during RHS evaluation:\n" + f_errs;
diff --git a/src/numerics/IdasIntegrator.cpp b/src/numerics/IdasIntegrator.cpp
index 9f38317..75a052a 100644
--- a/src/numerics/IdasIntegrator.cpp
+++ b/src/numerics/IdasIntegrator.cpp
@@ -466,6 +466,7 @@ void IdasIntegrator::integrate(double tout)
     int nsteps = 0;
     while (m_tInteg < tout) {
         if (nsteps >= m_maxsteps) {
+            m_time = m_tInteg; // time of the solution that has been reached
             throw CanteraError("IdasIntegrator::integrate",
                 "Maximum number of timesteps ({}) taken without reaching output "
                 "time ({}).\nCurrent integrator time: {}",
@@ -473,6 +474,7 @@ void IdasIntegrator::integrate(double tout)
         }
         int flag = IDASolve(m_ida_mem, tout, &m_tInteg, m_y, m_ydot, IDA_ONE_STEP);
         if (flag != IDA_SUCCESS) {
+            m_time = m_tInteg; // time of the solution that has been reached
             string f_errs = m_func->getErrors();
             if (!f_errs.empty()) {
                 f_errs = "Exceptions caught during RHS evaluation:\n" + f_errs;
@@ -494,6 +496,7 @@ double IdasIntegrator::step(double tout)
 {
     int flag = IDASolve(m_ida_mem, tout, &m_tInteg, m_y, m_ydot, IDA_ONE_STEP);
     if (flag != IDA_SUCCESS) {
+        m_time = m_tInteg; // time of the solution that has been reached
         string f_errs = m_func->getErrors();
         if (!f_errs.empty()) {
             f_errs = "Exceptions caught during RHS evaluation:\n" + f_errs;
diff --git a/src/zeroD/ReactorNet.cpp b/src/zeroD/ReactorNet.cpp
index d52591a..81054ac 100644
--- a/src/zeroD/ReactorNet.cpp
+++ b/src/zeroD/ReactorNet.cpp
@@ -178,7 +178,12 @@ void ReactorNet::advance(double time)
     } else if (!m_integrator_init) {
         reinitialize();
     }
-    m_integ->integrate(time);
+    try {
+        m_integ->integrate(time);
+    } catch (...) {
+        restoreIntegratorState();
+        throw;
+    }
     m_time = time;
     updateState(m_integ->solution());
 }
@@ -197,7 +202,7 @@ double ReactorNet::advance(double time, bool applylimit)
         return time;
     }
 
-    if (!hasAdvanceLimits()) {
+    if (!hasAdvanceLimits() || time <= m_time) {
         // take full step
         advance(time);
         return time;
@@ -205,9 +210,9 @@ double ReactorNet::advance(double time, bool applylimit)
 
     getAdvanceLimits(m_advancelimits.data());
 
-    // ensure that gradient is available
+    // ensure that gradient is available, without passing the requested time
     while (lastOrder() < 1) {
-        step();
+        advance(m_time + 1e-3 * (time - m_time));
     }
 
     int k = lastOrder();
@@ -245,11 +250,26 @@ double ReactorNet::step()
     } else if (!m_integrator_init) {
         reinitialize();
     }
-    m_time = m_integ->step(m_time + 1.0);
+    try {
+        m_time = m_integ->step(m_time + 1.0);
+    } catch (...) {
+        restoreIntegratorState();
+        throw;
+    }
     updateState(m_integ->solution());
     return m_time;
 }
 
+void ReactorNet::restoreIntegratorState()
+{
+    try {
+        m_time = m_integ->currentTime();
+        updateState(m_integ->solution());
+    } catch (CanteraError&) {
+        // the error that ended the integration is the one to be reported
+    }
+}
+
 void ReactorNet::getEstimate(double time, int k, double* yest)
 {
     if (!m_init) {
-- 
2.43.0


From ec706c820364c26543df597cd031fcb4f3001787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:31 +0000
Subject: [PATCH 031/127] fix: SolutionArray always restores the state of the
 requested entry

---
 src/base/SolutionArray.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index dba2af8..1837d98 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -778,13 +778,12 @@ void SolutionArray::setLoc(int loc, bool restore)
                 "Both current and buffered indices are invalid.");
         }
         return;
-    } else if (static_cast<size_t>(m_active[loc_]) == m_loc) {
-        return;
     } else if (loc_ >= m_size) {
         throw IndexError("SolutionArray::setLoc", "indices", loc_, m_size);
     }
     m_loc = static_cast<size_t>(m_active[loc_]);
     if (restore) {
+        // always needed, as the phase or shared data may have been changed meanwhile
         size_t nState = m_sol->thermo()->stateSize();
         m_sol->thermo()->restoreState(nState, m_data->data() + m_loc * m_stride);
     }
-- 
2.43.0


From 68b8173efc3047669a63db85a6f6379a2894923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:31 +0000
Subject: [PATCH 032/127] fix: extra values assigned to a reordered slice of a
 SolutionArray keep the order of the slice

---
 src/base/SolutionArray.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index 1837d98..fd0c5ba 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -2018,15 +2018,27 @@ void setScalar(AnyValue& extra, const AnyValue& data, const vector<int>& slice)
     }
 }
 
+//! Check that a slice holds all entries in their original order
+bool inOriginalOrder(const vector<int>& slice)
+{
+    for (size_t k = 0; k < slice.size(); ++k) {
+        if (slice[k] != static_cast<int>(k)) {
+            return false;
+        }
+    }
+    return true;
+}
+
 template<class T>
 void setSingle(AnyValue& extra, const AnyValue& data, const vector<int>& slice)
 {
     size_t size = slice.size();
-    if (extra.vectorSize() == size && data.vectorSize() == size) {
+    bool ordered = inOriginalOrder(slice);
+    if (ordered && extra.vectorSize() == size && data.vectorSize() == size) {
         extra = data; // no slicing necessary; type can change
         return;
     }
-    if (extra.matrixShape().first == size && data.vectorSize() == size) {
+    if (ordered && extra.matrixShape().first == size && data.vectorSize() == size) {
         extra = data; // no slicing necessary; shape and type can change
         return;
     }
@@ -2057,11 +2069,12 @@ void setMulti(AnyValue& extra, const AnyValue& data, const vector<int>& slice)
     }
     size_t size = slice.size();
     auto [rows, cols] = data.matrixShape();
-    if (extra.matrixShape().first == size && rows == size) {
+    bool ordered = inOriginalOrder(slice);
+    if (ordered && extra.matrixShape().first == size && rows == size) {
         extra = data; // no slicing necessary; type can change
         return;
     }
-    if (extra.vectorSize() == size && rows == size) {
+    if (ordered && extra.vectorSize() == size && rows == size) {
         extra = data; // no slicing necessary; shape and type can change
         return;
     }
-- 
2.43.0


From e06fb9fa5fb15ee8257ce020b21349bf0d6c67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:31 +0000
Subject: [PATCH 033/127] fix: SolutionArray input with several dimensions or
 too many entries

---
 interfaces/cython/cantera/composite.py | 31 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/interfaces/cython/cantera/composite.py b/interfaces/cython/cantera/composite.py
index 711cfc9..a14118b 100644
--- a/interfaces/cython/cantera/composite.py
+++ b/interfaces/cython/cantera/composite.py
@@ -667,7 +667,7 @@ class SolutionArray(SolutionArrayBase):
         selected = np.arange(self.size).reshape(self.shape)[index]
         out = SolutionArray(self._phase, init=False)
         if hasattr(selected, "__len__"):
-            self._share(out, selected)
+            self._share(out, selected.ravel())
         else:
             self._share(out, [selected])
         out.shape = selected.shape
@@ -699,7 +699,8 @@ class SolutionArray(SolutionArrayBase):
                     f"Incompatible shapes for extra column '{name}': cannot assign "
                     f"value with shape {new.shape} to SolutionArray with shape "
                     f"{self.shape}")
-            self._set_component(name, new)
+            # components are stored as flat list of entries
+            self._set_component(name, new.reshape((self.size,) + new.shape[self.ndim:]))
         else:
             super().__setattr__(name, value)
 
@@ -1045,6 +1046,15 @@ class SolutionArray(SolutionArrayBase):
                 self._add_extra(key)
             self._set_component(key, value)
 
+    def _broadcast(self, *values):
+        # Broadcast values that are lower-dimensional than the shape of the
+        # SolutionArray; values that hold more entries than the array are not allowed
+        *out, ref = np.broadcast_arrays(*values, self._output_dummy)
+        if ref.size != np.size(self._output_dummy):
+            raise ValueError(
+                f"Cannot broadcast input to SolutionArray with shape {self.shape}")
+        return out
+
     def set_equivalence_ratio(self, phi, *args, **kwargs):
         """
         See `ThermoPhase.set_equivalence_ratio`
@@ -1056,7 +1066,7 @@ class SolutionArray(SolutionArrayBase):
         # If ``phi`` is lower-dimensional than the SolutionArray's shape (for
         # example, a scalar), broadcast it to have the right number of
         # dimensions.
-        phi, _ = np.broadcast_arrays(phi, self._output_dummy)
+        phi, = self._broadcast(phi)
 
         for loc, index in enumerate(self._indices):
             self._set_loc(loc)
@@ -1074,7 +1084,7 @@ class SolutionArray(SolutionArrayBase):
         # If ``mixture_fraction`` is lower-dimensional than the SolutionArray's
         # shape (for example, a scalar), broadcast it to have the right number
         # of dimensions.
-        mixture_fraction, _ = np.broadcast_arrays(mixture_fraction, self._output_dummy)
+        mixture_fraction, = self._broadcast(mixture_fraction)
 
         for loc, index in enumerate(self._indices):
             self._set_loc(loc)
@@ -1327,7 +1337,7 @@ def _state2_prop(name, doc_source):
     def setter(self, AB):
         if len(AB) != 2:
             raise ValueError("Expected 2 elements, got {}".format(len(AB)))
-        A, B, _ = np.broadcast_arrays(AB[0], AB[1], self._output_dummy)
+        A, B = self._broadcast(AB[0], AB[1])
         for loc, index in enumerate(self._indices):
             self._set_loc(loc)
             setattr(self._phase, name, (A[index], B[index]))
@@ -1354,9 +1364,16 @@ def _state3_prop(name, doc_source, scalar=False):
     def setter(self, ABC):
         if len(ABC) != 3:
             raise ValueError("Expected 3 elements, got {}".format(len(ABC)))
-        A, B, _ = np.broadcast_arrays(ABC[0], ABC[1], self._output_dummy)
+        A, B = self._broadcast(ABC[0], ABC[1])
         XY = ABC[2] # composition
-        if len(np.shape(XY)) < 2:
+        if scalar:
+            # vapor fraction, with one value for each entry
+            C, = self._broadcast(XY)
+            for loc, index in enumerate(self._indices):
+                self._set_loc(loc)
+                setattr(self._phase, name, (A[index], B[index], C[index]))
+                self._update_state(loc)
+        elif len(np.shape(XY)) < 2:
             # composition is a single array (or string or dict)
             for loc, index in enumerate(self._indices):
                 self._set_loc(loc)
-- 
2.43.0


From cc3916d1f37f860cd1787e9a5a1b6d7c5e2c7329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:05 +0000
Subject: [PATCH 034/127] fix: YAML output of non-finite numbers and of text
 which reads as a boolean

---
 src/base/AnyMap.cpp | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index 72f4526..810cdf3 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -22,6 +22,29 @@ std::mutex yaml_cache_mutex;
 std::mutex yaml_field_order_mutex;
 using namespace Cantera;
 
+//! Check for non-finite floating point numbers as written in YAML
+bool isNonFinite(const string& str)
+{
+    size_t start = (str[0] == '+' || str[0] == '-') ? 1 : 0;
+    string name = str.substr(start);
+    return (name == ".inf" || name == ".Inf" || name == ".INF"
+            || (start == 0 && (name == ".nan" || name == ".NaN" || name == ".NAN")));
+}
+
+//! Convert a string accepted by isFloat() to a number
+double yamlFloat(const string& val)
+{
+    string str = ba::trim_copy(val);
+    if (!str.empty() && isNonFinite(str)) {
+        if (str.back() == 'n' || str.back() == 'N') {
+            return std::numeric_limits<double>::quiet_NaN();
+        }
+        double inf = std::numeric_limits<double>::infinity();
+        return str[0] == '-' ? -inf : inf;
+    }
+    return fpValue(val);
+}
+
 bool isFloat(const string& val)
 {
     // This function duplicates the logic of fpValueCheck, but doesn't throw
@@ -29,6 +52,8 @@ bool isFloat(const string& val)
     string str = ba::trim_copy(val);
     if (str.empty()) {
         return false;
+    } else if (isNonFinite(str)) {
+        return true;
     }
     int numDot = 0;
     int numExp = 0;
@@ -169,6 +194,10 @@ string formatDouble(double x, long int precision)
     // or the displayed value has multiple trailing zeros.
     if (x == 0.0) {
         return "0.0";
+    } else if (std::isnan(x)) {
+        return ".nan";
+    } else if (std::isinf(x)) {
+        return x > 0 ? ".inf" : "-.inf";
     }
 
     // Build string with full precision
@@ -304,8 +333,8 @@ YAML::Emitter& operator<<(YAML::Emitter& out, const AnyMap& rhs)
                 valueStr = formatDouble(value.asDouble(), getPrecision(value));
             } else if (value.is<string>()) {
                 valueStr = value.asString();
-                if (isFloat(valueStr)) {
-                    // Quote strings that look like numbers to preserve their type
+                if (isFloat(valueStr) || isBool(valueStr)) {
+                    // Quote strings that look like other types to preserve their type
                     needsQuotes = true;
                 }
             } else if (value.is<long int>()) {
@@ -351,7 +380,7 @@ YAML::Emitter& operator<<(YAML::Emitter& out, const AnyMap& rhs)
 //! Write YAML strings spanning multiple lines if input includes endline '\n'
 void emitString(YAML::Emitter& out, const string& str0) {
     if (str0.rfind('\n') == string::npos) {
-        if (isFloat(str0)) {
+        if (isFloat(str0) || isBool(str0)) {
             out << YAML::SingleQuoted;
         }
         out << str0;
@@ -389,7 +418,7 @@ void emitFlowVector(YAML::Emitter& out, const vector<double>& v, long int precis
 
 //! Write a vector in YAML "flow" style, wrapping lines to avoid exceeding the
 //! preferred maximum line length (set by `max_line_length`). Specialized for
-//! `vector<string>` to quote strings that look like numeric values
+//! `vector<string>` to quote strings that look like numeric or boolean values
 void emitFlowVector(YAML::Emitter& out, const vector<string>& v)
 {
     out << YAML::Flow;
@@ -401,7 +430,7 @@ void emitFlowVector(YAML::Emitter& out, const vector<string>& v)
             out << YAML::Newline;
             width = 15;
         }
-        if (isFloat(x)) {
+        if (isFloat(x) || isBool(x)) {
             out << SingleQuoted;
             width += 2;
         }
@@ -526,7 +555,7 @@ struct convert<Cantera::AnyValue> {
                     target = node.as<double>();
                 }
             } else if (isFloat(nodestr)) {
-                target = fpValue(nodestr);
+                target = yamlFloat(nodestr);
             } else if (isBool(nodestr)) {
                 target = node.as<bool>();
             } else {
@@ -541,7 +570,7 @@ struct convert<Cantera::AnyValue> {
             } else if (types == (Type::Integer | Type::Double) || types == Type::Double) {
                 vector<double> values;
                 for (const auto& elem : node) {
-                    values.push_back(fpValue(elem.as<string>()));
+                    values.push_back(yamlFloat(elem.as<string>()));
                 }
                 target = std::move(values);
             } else if (types == Type::String) {
@@ -563,7 +592,7 @@ struct convert<Cantera::AnyValue> {
                     for (const auto& row : node) {
                         values.emplace_back();
                         for (const auto& value : row) {
-                            values.back().push_back(fpValue(value.as<string>()));
+                            values.back().push_back(yamlFloat(value.as<string>()));
                         }
                     }
                     target = std::move(values);
-- 
2.43.0


From 604bc93ad8eb3609d3494b6ccaac6e1235718a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:05 +0000
Subject: [PATCH 035/127] fix: SolutionArray files: failing save keeps the
 existing file, single-entry arrays keep extra columns and phase fractions,
 local files take precedence

---
 src/base/SolutionArray.cpp | 90 ++++++++++++++++++++++++++++++--------
 1 file changed, 71 insertions(+), 19 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index fd0c5ba..769fce1 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -15,6 +15,7 @@
 #include "cantera/base/utilities.h"
 #include <boost/algorithm/string.hpp>
 #include <boost/range/adaptor/reversed.hpp>
+#include <filesystem>
 #include <fstream>
 #include <sstream>
 
@@ -1061,17 +1062,14 @@ void SolutionArray::writeEntry(const string& fname, bool overwrite, const string
         }
     }
 
-    // (Most) potential exceptions have been thrown; start writing data to file
-    if (std::ifstream(fname).good()) {
-        if (!overwrite) {
-            throw CanteraError("SolutionArray::writeEntry",
-                "File '{}' already exists; use option 'overwrite' to replace CSV file.",
-                fname);
-        }
-        std::remove(fname.c_str());
+    if (!overwrite && std::ifstream(fname).good()) {
+        throw CanteraError("SolutionArray::writeEntry",
+            "File '{}' already exists; use option 'overwrite' to replace CSV file.",
+            fname);
     }
-    std::ofstream output(fname);
-    output << to_string(header) << std::endl;
+    // assemble complete content before an existing file is replaced
+    std::ostringstream output;
+    output << to_string(header) << "\n";
 
     size_t maxLen = npos;
     vector<double> buf(speciesNames.size(), 0.);
@@ -1118,9 +1116,18 @@ void SolutionArray::writeEntry(const string& fname, bool overwrite, const string
                 }
             }
         }
-        output << to_string(line) << std::endl;
+        output << to_string(line) << "\n";
         maxLen = std::max(maxLen, line.size());
     }
+
+    std::remove(fname.c_str());
+    std::ofstream file(fname);
+    file << output.str();
+    file.close();
+    if (!file) {
+        throw CanteraError("SolutionArray::writeEntry",
+            "Unable to write file '{}'.", fname);
+    }
 }
 
 void SolutionArray::writeEntry(const string& fname, const string& name,
@@ -1233,12 +1240,14 @@ void SolutionArray::writeEntry(AnyMap& root, const string& name, const string& s
     }
     data.update(m_meta);
 
-    if (m_size > 1) {
+    if (m_size > 1 || (m_size == 1 && m_order->size())) {
         data["components"] = componentNames();
     }
 
     for (auto& [_, key] : *m_order) {
-        data[key] = m_extra->at(key);
+        if (!m_extra->at(key).is<void>()) {
+            data[key] = m_extra->at(key);
+        }
     }
 
     auto phase = m_sol->thermo();
@@ -1246,6 +1255,10 @@ void SolutionArray::writeEntry(AnyMap& root, const string& name, const string& s
         setLoc(0);
         data["temperature"] = phase->temperature();
         data["pressure"] = phase->pressure();
+        if (phase->nativeMode() == "TD") {
+            // pressure is not sufficient for multiphase mixtures
+            data["density"] = phase->density();
+        }
         auto surf = std::dynamic_pointer_cast<SurfPhase>(phase);
         auto nSpecies = phase->nSpecies();
         vector<double> values(nSpecies);
@@ -1310,6 +1323,19 @@ void SolutionArray::append(const vector<double>& state, const AnyMap& extra)
     }
 }
 
+namespace { // restrict scope of helper functions to local translation unit
+
+//! Local files take precedence over files of the same name in data directories
+string localFile(const string& fname)
+{
+    if (std::ifstream(fname).good()) {
+        return std::filesystem::absolute(fname).string();
+    }
+    return fname;
+}
+
+} // end unnamed namespace
+
 void SolutionArray::save(const string& fname, const string& name, const string& sub,
                          const string& desc, bool overwrite, int compression,
                          const string& basis)
@@ -1341,15 +1367,22 @@ void SolutionArray::save(const string& fname, const string& name, const string&
         // Check for an existing file and load it if present
         AnyMap data;
         if (std::ifstream(fname).good()) {
-            data = AnyMap::fromYamlFile(fname);
+            data = AnyMap::fromYamlFile(localFile(fname));
         }
         writeHeader(data, name, desc, overwrite);
         writeEntry(data, name, sub, true);
 
-        // Write the output file and remove the now-outdated cached file
+        // Write the output file and remove the now-outdated cached file; existing
+        // content is only replaced after the new content is complete
+        string content = data.toYamlString();
         std::ofstream out(fname);
-        out << data.toYamlString();
-        AnyMap::clearCachedFile(fname);
+        out << content;
+        out.close();
+        if (!out) {
+            throw CanteraError("SolutionArray::save",
+                "Unable to write file '{}'.", fname);
+        }
+        AnyMap::clearCachedFile(localFile(fname));
         return;
     }
     throw CanteraError("SolutionArray::save",
@@ -1413,7 +1446,7 @@ AnyMap SolutionArray::restore(const string& fname,
         readEntry(fname, name, sub);
         header = readHeader(fname, name);
     } else if (extension == "yaml" || extension == "yml") {
-        const AnyMap& root = AnyMap::fromYamlFile(fname);
+        const AnyMap& root = AnyMap::fromYamlFile(localFile(fname));
         readEntry(root, name, sub);
         header = readHeader(root, name);
     } else {
@@ -1859,9 +1892,10 @@ void SolutionArray::readEntry(const AnyMap& root, const string& name, const stri
         resize(static_cast<int>(size));
     }
     m_extra->clear();
+    m_order->clear();
 
     // restore data
-    set<string> exclude = {"size", "api-shape", "points", "X", "Y"};
+    set<string> exclude = {"size", "api-shape", "points", "X", "Y", "components"};
     set<string> names = path.keys();
     size_t nState = m_sol->thermo()->stateSize();
     if (m_dataSize == 0) {
@@ -1890,6 +1924,11 @@ void SolutionArray::readEntry(const AnyMap& root, const string& name, const stri
             warn_user("SolutionArray::readEntry",
                 "Detected legacy YAML format with incomplete state information\n"
                 "for name '{}' (pressure missing).", name + "/" + sub);
+        } else if (mode == "TD") {
+            // single species with more than one phase
+            m_sol->thermo()->setState_TD(path[getName(names, "T")].asDouble(),
+                                         path[getName(names, "D")].asDouble());
+            exclude.insert({"pressure", "mass-fractions"});
         } else if (mode == "") {
             throw CanteraError("SolutionArray::readEntry",
                 "Data are not consistent with full state modes.");
@@ -1900,6 +1939,19 @@ void SolutionArray::readEntry(const AnyMap& root, const string& name, const stri
         m_sol->thermo()->saveState(nState, m_data->data());
         auto props = _stateProperties(mode, true);
         exclude.insert(props.begin(), props.end());
+        if (path.hasKey("components")) {
+            // auxiliary components
+            bool back = false;
+            for (const auto& name : path["components"].asVector<string>()) {
+                if (hasComponent(name)) {
+                    back = true;
+                } else if (path.hasKey(name)) {
+                    addExtra(name, back);
+                    setComponent(name, path[name]);
+                    exclude.insert(name);
+                }
+            }
+        }
     } else {
         // multiple data points
         if (path.hasKey("components")) {
-- 
2.43.0


From ea6bddc455da0fb620be75c7497f7bea154c0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:05 +0000
Subject: [PATCH 036/127] fix: addition of Quantities conserves the property
 pair declared constant

---
 interfaces/cython/cantera/composite.py | 40 ++++++++++++--------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/interfaces/cython/cantera/composite.py b/interfaces/cython/cantera/composite.py
index a14118b..c9cd215 100644
--- a/interfaces/cython/cantera/composite.py
+++ b/interfaces/cython/cantera/composite.py
@@ -327,28 +327,26 @@ class Quantity:
 
         m = self.mass + other.mass
         Y = (self.Y * self.mass + other.Y * other.mass)
-        if self.constant == 'UV':
-            U = self.int_energy + other.int_energy
-            V = self.volume + other.volume
-            if self.basis == 'mass':
-                self._phase.UVY = U / m, V / m, Y
-            else:
-                n = self.moles + other.moles
-                self._phase.UVY = U / n, V / n, Y
-        else:  # self.constant == 'HP'
-            dp_rel = 2 * abs(self.P - other.P) / (self.P + other.P)
-            if dp_rel > 1.0e-7:
-                raise ValueError(
-                    'Cannot add Quantities at constant pressure when '
-                    f'pressure is not equal ({self.P} != {other.P})')
-
-            H = self.enthalpy + other.enthalpy
-            if self.basis == 'mass':
-                self._phase.HPY = H / m, None, Y
+        amount = m if self.basis == 'mass' else self.moles + other.moles
+        values = []
+        for prop in self.constant:
+            if prop in 'TP':
+                # intensive properties need to be the same
+                label = 'temperature' if prop == 'T' else 'pressure'
+                a, b = getattr(self, prop), getattr(other, prop)
+                if 2 * abs(a - b) / (a + b) > 1.0e-7:
+                    raise ValueError(
+                        f'Cannot add Quantities at constant {label} when '
+                        f'{label} is not equal ({a} != {b})')
+                values.append(a)
             else:
-                n = self.moles + other.moles
-                self._phase.HPY = H / n, None, Y
-
+                # extensive properties are additive
+                total = getattr(self, prop) + getattr(other, prop)
+                values.append(total / amount)
+        if self.constant == 'TV':
+            self._phase.TDY = values[0], 1 / values[1], Y
+        else:
+            setattr(self._phase, self.constant + 'Y', (*values, Y))
         self.state = self._phase.state
         self.mass = m
         return self
-- 
2.43.0


From 1fa11904421a65dc8572410d0e041a38596b79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 037/127] fix: YamlWriter keeps custom element definitions and
 reports/contains failures while writing a file

---
 src/base/YamlWriter.cpp | 57 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/src/base/YamlWriter.cpp b/src/base/YamlWriter.cpp
index 4bbda7e..fb65320 100644
--- a/src/base/YamlWriter.cpp
+++ b/src/base/YamlWriter.cpp
@@ -95,6 +95,54 @@ string YamlWriter::toYamlString() const
         }
         nspecies_total += m_phases[i]->thermo()->nSpecies();
     }
+    // Build definitions of elements which differ from the built-in definitions
+    vector<AnyMap> elementDefs;
+    map<string, std::pair<double, double>> elementData;
+    for (size_t i = 0; i < m_phases.size(); i++) {
+        const auto thermo = m_phases[i]->thermo();
+        if (!phaseDefs[i].hasKey("elements")) {
+            continue;
+        }
+        for (const auto& symbol : phaseDefs[i]["elements"].asVector<string>()) {
+            size_t m = thermo->elementIndex(symbol);
+            auto data = std::make_pair(thermo->atomicWeight(m),
+                                       thermo->entropyElement298(m));
+            if (elementData.count(symbol)) {
+                if (elementData[symbol] != data) {
+                    throw CanteraError("YamlWriter::toYamlString",
+                        "Multiple elements with different definitions are not "
+                        "supported: '{}'", symbol);
+                }
+                continue;
+            }
+            elementData[symbol] = data;
+            Phase builtin;
+            bool known = true;
+            try {
+                builtin.addElement(symbol);
+            } catch (CanteraError&) {
+                // not a known element
+                known = false;
+            }
+            if (!known || builtin.atomicWeight(0) != data.first
+                || builtin.entropyElement298(0) != data.second)
+            {
+                AnyMap elementDef;
+                elementDef["symbol"] = symbol;
+                elementDef["atomic-weight"] = data.first;
+                if (thermo->atomicNumber(m)) {
+                    elementDef["atomic-number"] = thermo->atomicNumber(m);
+                }
+                if (data.second != ENTROPY298_UNKNOWN) {
+                    elementDef["entropy298"] = data.second;
+                }
+                elementDefs.push_back(std::move(elementDef));
+            }
+        }
+    }
+    if (!elementDefs.empty()) {
+        output["elements"] = std::move(elementDefs);
+    }
     output["phases"] = phaseDefs;
 
     // Build species definitions for all phases
@@ -188,8 +236,15 @@ string YamlWriter::toYamlString() const
 
 void YamlWriter::toYamlFile(const string& filename) const
 {
+    // Generate the content first, so an existing file is kept if this fails
+    string content = toYamlString();
     std::ofstream out(filename);
-    out << toYamlString();
+    out << content;
+    out.close();
+    if (!out) {
+        throw CanteraError("YamlWriter::toYamlFile",
+                           "Could not write file '{}'", filename);
+    }
 }
 
 void YamlWriter::setUnits(const map<string, string>& units)
-- 
2.43.0


From 6118facb6990912675b1f47b2da08992b0259740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 038/127] fix: Interface.write_yaml can return a string, takes
 a header option and a single additional phase

---
 interfaces/cython/cantera/kinetics.pyx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/interfaces/cython/cantera/kinetics.pyx b/interfaces/cython/cantera/kinetics.pyx
index e5e081b..e9e5020 100644
--- a/interfaces/cython/cantera/kinetics.pyx
+++ b/interfaces/cython/cantera/kinetics.pyx
@@ -1000,18 +1000,22 @@ cdef class InterfaceKinetics(Kinetics):
         i_phase = self.phase_index(phase)
         return (<CxxInterfaceKinetics*>self.kinetics).interfaceCurrent(i_phase)
 
-    def write_yaml(self, filename, phases=None, units=None, precision=None,
-                   skip_user_defined=None):
+    def write_yaml(self, filename=None, phases=None, units=None, precision=None,
+                   skip_user_defined=None, header=True):
         """
         See `_SolutionBase.write_yaml <cantera._cantera._SolutionBase.write_yaml>`.
         """
-        if phases is not None:
-            phases = list(phases)
-        else:
+        if phases is None:
             phases = []
+        elif isinstance(phases, _SolutionBase):
+            # "phases" is just a single phase object
+            phases = [phases]
+        else:
+            phases = list(phases)
 
         for phase in self._phase_indices:
             if isinstance(phase, _SolutionBase) and phase is not self:
                 phases.append(phase)
 
-        super().write_yaml(filename, phases, units, precision, skip_user_defined)
+        return super().write_yaml(filename, phases, units, precision,
+                                  skip_user_defined, header)
-- 
2.43.0


From 63ade5fc7385669ebe7ba9357fa735b45e258d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 039/127] fix: phase definitions with empty lists of elements
 or species can be read

---
 src/thermo/ThermoFactory.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/thermo/ThermoFactory.cpp b/src/thermo/ThermoFactory.cpp
index c3d76bc..176b749 100644
--- a/src/thermo/ThermoFactory.cpp
+++ b/src/thermo/ThermoFactory.cpp
@@ -204,6 +204,12 @@ void addSpecies(ThermoPhase& thermo, const AnyValue& names, const AnyValue& spec
     }
 }
 
+//! An empty YAML list, which has no specific element type
+static bool isEmptyList(const AnyValue& node)
+{
+    return node.is<vector<AnyValue>>() && node.asVector<AnyValue>().empty();
+}
+
 void setupPhase(ThermoPhase& thermo, const AnyMap& phaseNode, const AnyMap& rootNode)
 {
     thermo.setName(phaseNode["name"].asString());
@@ -255,7 +261,7 @@ void setupPhase(ThermoPhase& thermo, const AnyMap& phaseNode, const AnyMap& root
                         "Could not find elements section named '{}'", source);
                 }
             }
-        } else {
+        } else if (!isEmptyList(phaseNode["elements"])) {
             throw InputFileError("setupPhase", phaseNode["elements"],
                 "Could not parse elements declaration of type '{}'",
                 phaseNode["elements"].type_str());
@@ -299,7 +305,7 @@ void setupPhase(ThermoPhase& thermo, const AnyMap& phaseNode, const AnyMap& root
                         "Could not find species section named '{}'", source);
                 }
             }
-        } else {
+        } else if (!isEmptyList(phaseNode["species"])) {
             throw InputFileError("setupPhase", phaseNode["species"],
                 "Could not parse species declaration of type '{}'",
                 phaseNode["species"].type_str());
-- 
2.43.0


From b32a5957fd8ac12592000730efb02bc0f49fe8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 040/127] fix: temperature limits of constant-cp and
 piecewise-Gibbs species are part of their parameters

---
 src/thermo/ConstCpPoly.cpp | 6 ++++++
 src/thermo/Mu0Poly.cpp     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/thermo/ConstCpPoly.cpp b/src/thermo/ConstCpPoly.cpp
index 04f3c54..3efdfe6 100644
--- a/src/thermo/ConstCpPoly.cpp
+++ b/src/thermo/ConstCpPoly.cpp
@@ -82,6 +82,12 @@ void ConstCpPoly::getParameters(AnyMap& thermo) const
     thermo["h0"].setQuantity(m_h0_R * GasConstant, "J/kmol");
     thermo["s0"].setQuantity(m_s0_R * GasConstant, "J/kmol/K");
     thermo["cp0"].setQuantity(m_cp0_R * GasConstant, "J/kmol/K");
+    if (m_lowT != 0.0) {
+        thermo["T-min"].setQuantity(m_lowT, "K");
+    }
+    if (std::isfinite(m_highT)) {
+        thermo["T-max"].setQuantity(m_highT, "K");
+    }
 }
 
 double ConstCpPoly::reportHf298(double* const h298) const
diff --git a/src/thermo/Mu0Poly.cpp b/src/thermo/Mu0Poly.cpp
index ee42208..356bdaa 100644
--- a/src/thermo/Mu0Poly.cpp
+++ b/src/thermo/Mu0Poly.cpp
@@ -154,6 +154,12 @@ void Mu0Poly::getParameters(AnyMap& thermo) const
     SpeciesThermoInterpType::getParameters(thermo);
     thermo["model"] = "piecewise-Gibbs";
     thermo["h0"].setQuantity(m_H298 * GasConstant, "J/kmol");
+    if (m_lowT != 0.0) {
+        thermo["T-min"].setQuantity(m_lowT, "K");
+    }
+    if (std::isfinite(m_highT)) {
+        thermo["T-max"].setQuantity(m_highT, "K");
+    }
     AnyMap data;
     bool dimensionless = m_input.getBool("dimensionless", false);
     if (dimensionless) {
-- 
2.43.0


From 82686657eb7010bccf8013e6dc8db73e9b25b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 041/127] fix: a Motz-Wise setting taken from the phase
 definition is part of the sticking rate's parameters

---
 src/kinetics/InterfaceRate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kinetics/InterfaceRate.cpp b/src/kinetics/InterfaceRate.cpp
index f4eb5b5..6c6ac78 100644
--- a/src/kinetics/InterfaceRate.cpp
+++ b/src/kinetics/InterfaceRate.cpp
@@ -333,7 +333,8 @@ void StickingCoverage::setStickingParameters(const AnyMap& node)
 
 void StickingCoverage::getStickingParameters(AnyMap& node) const
 {
-    if (m_explicitMotzWise) {
+    // Also retain the setting if it was taken from the definition of the phase
+    if (m_explicitMotzWise || m_motzWise) {
         node["Motz-Wise"] = m_motzWise;
     }
     if (m_explicitSpecies) {
-- 
2.43.0


From 92d3702ee63bc3987e385e8ea0caf28c506ebb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 042/127] fix: reaction IDs are part of the reaction's
 parameters

---
 src/kinetics/Reaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index 58782fd..e3e9c9c 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -224,6 +224,9 @@ void Reaction::getParameters(AnyMap& reactionNode) const
 
     reactionNode["equation"] = equation();
 
+    if (!id.empty()) {
+        reactionNode["id"] = id;
+    }
     if (duplicate) {
         reactionNode["duplicate"] = true;
     } else {
-- 
2.43.0


From ceba5a998ba3787458b8a0dc0cc44661bc967115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 043/127] fix: the number of sites occupied by a species is
 written under the key it is read from

---
 src/thermo/Species.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermo/Species.cpp b/src/thermo/Species.cpp
index 1cb9b75..ade4f2d 100644
--- a/src/thermo/Species.cpp
+++ b/src/thermo/Species.cpp
@@ -79,9 +79,9 @@ AnyMap Species::parameters(const ThermoPhase* phase, bool withInput) const
     }
 
     if (size != 1) {
-        speciesNode["size"] = size;
+        speciesNode["sites"] = size;
     } else {
-        speciesNode.exclude("size");
+        speciesNode.exclude("sites");
     }
 
     if (thermo) {
-- 
2.43.0


From cbbe948edc721da4883d6efbaefd7262db4f0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 044/127] fix: pickling of any Interface object is refused when
 pickling, not when unpickling

---
 interfaces/cython/cantera/solutionbase.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/cython/cantera/solutionbase.pyx b/interfaces/cython/cantera/solutionbase.pyx
index b8de329..2d7dcee 100644
--- a/interfaces/cython/cantera/solutionbase.pyx
+++ b/interfaces/cython/cantera/solutionbase.pyx
@@ -397,7 +397,8 @@ cdef class _SolutionBase:
 
     def __getstate__(self):
         """Save complete information of the current phase for pickling."""
-        if self.kinetics.nTotalSpecies() > self.thermo.nSpecies():
+        if (isinstance(self, InterfacePhase)
+                or self.kinetics.nTotalSpecies() > self.thermo.nSpecies()):
             raise NotImplementedError(
                 "Pickling of Interface objects is not implemented.")
         return self.write_yaml()
-- 
2.43.0


From 7cf43e370b2896e745c4a41121a7afb372abc2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:18 +0000
Subject: [PATCH 045/127] fix: rate coefficients of reactions created from
 equation strings or used by modifyReaction have units, as do falloff limits
 and P-log rates

---
 include/cantera/kinetics/Falloff.h  |  2 ++
 include/cantera/kinetics/PlogRate.h |  2 ++
 src/kinetics/Falloff.cpp            | 16 ++++++++++++++++
 src/kinetics/Kinetics.cpp           |  9 +++++++++
 src/kinetics/PlogRate.cpp           |  8 ++++++++
 5 files changed, 37 insertions(+)

diff --git a/include/cantera/kinetics/Falloff.h b/include/cantera/kinetics/Falloff.h
index bf58269..e6c0736 100644
--- a/include/cantera/kinetics/Falloff.h
+++ b/include/cantera/kinetics/Falloff.h
@@ -148,6 +148,8 @@ public:
         return 0;
     }
 
+    void setRateUnits(const UnitStack& rate_units) override;
+
     void setParameters(const AnyMap& node, const UnitStack& rate_units) override;
 
     void getParameters(AnyMap& node) const override;
diff --git a/include/cantera/kinetics/PlogRate.h b/include/cantera/kinetics/PlogRate.h
index cef0754..0db9acf 100644
--- a/include/cantera/kinetics/PlogRate.h
+++ b/include/cantera/kinetics/PlogRate.h
@@ -96,6 +96,8 @@ public:
      *  @param node  AnyMap containing rate information
      *  @param rate_units  Unit definitions specific to rate information
      */
+    void setRateUnits(const UnitStack& rate_units) override;
+
     void setParameters(const AnyMap& node, const UnitStack& rate_units) override;
 
     void getParameters(AnyMap& rateNode, const Units& rate_units) const;
diff --git a/src/kinetics/Falloff.cpp b/src/kinetics/Falloff.cpp
index abed33e..afa9666 100644
--- a/src/kinetics/Falloff.cpp
+++ b/src/kinetics/Falloff.cpp
@@ -125,6 +125,22 @@ void FalloffRate::getFalloffCoeffs(vector<double>& c) const
     c.clear();
 }
 
+void FalloffRate::setRateUnits(const UnitStack& rate_units)
+{
+    ReactionRate::setRateUnits(rate_units);
+    if (rate_units.size()) {
+        UnitStack low_rate_units = rate_units;
+        UnitStack high_rate_units = rate_units;
+        if (m_chemicallyActivated) {
+            high_rate_units.join(1);
+        } else {
+            low_rate_units.join(-1);
+        }
+        m_lowRate.setRateUnits(low_rate_units);
+        m_highRate.setRateUnits(high_rate_units);
+    }
+}
+
 void FalloffRate::setParameters(const AnyMap& node, const UnitStack& rate_units)
 {
     ReactionRate::setParameters(node, rate_units);
diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index 5ee4bb9..2493e35 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -633,7 +633,9 @@ bool Kinetics::addReaction(shared_ptr<Reaction> r, bool resize)
 
     // For reactions created outside the context of a Kinetics object, the units
     // of the rate coefficient can't be determined in advance. Do that here.
+    // All species are known to exist at this point.
     if (r->rate_units.factor() == 0) {
+        r->setValid(true);
         r->rate()->setRateUnits(r->calculateRateCoeffUnits(*this));
     }
 
@@ -745,6 +747,13 @@ void Kinetics::modifyReaction(size_t i, shared_ptr<Reaction> rNew)
             rOld->productString(), rNew->productString());
     }
 
+    // Determine units of the rate coefficient for reactions created outside the
+    // context of a Kinetics object
+    if (rNew->rate_units.factor() == 0) {
+        rNew->setValid(true);
+        rNew->rate()->setRateUnits(rNew->calculateRateCoeffUnits(*this));
+    }
+
     // Set up the rate before replacing the reaction, since this can fail
     rNew->rate()->setContext(*rNew, *this);
     m_reactions[i] = rNew;
diff --git a/src/kinetics/PlogRate.cpp b/src/kinetics/PlogRate.cpp
index d8cd0d9..a52efcb 100644
--- a/src/kinetics/PlogRate.cpp
+++ b/src/kinetics/PlogRate.cpp
@@ -59,6 +59,14 @@ PlogRate::PlogRate(const AnyMap& node, const UnitStack& rate_units)
     setParameters(node, rate_units);
 }
 
+void PlogRate::setRateUnits(const UnitStack& rate_units)
+{
+    ReactionRate::setRateUnits(rate_units);
+    for (auto& rate : rates_) {
+        rate.setRateUnits(rate_units);
+    }
+}
+
 void PlogRate::setParameters(const AnyMap& node, const UnitStack& rate_units)
 {
     ReactionRate::setParameters(node, rate_units);
-- 
2.43.0


From e57e1469221a4126e22055932cfdeee94956a777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:18 +0000
Subject: [PATCH 046/127] fix: chemically-activated reactions can be modified
 if falloff reactions of the same form exist

---
 include/cantera/kinetics/MultiRate.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cantera/kinetics/MultiRate.h b/include/cantera/kinetics/MultiRate.h
index 48aeb1c..7de54e3 100644
--- a/include/cantera/kinetics/MultiRate.h
+++ b/include/cantera/kinetics/MultiRate.h
@@ -46,10 +46,16 @@ public:
                  "Invalid operation: cannot replace rate object "
                  "in empty rate handler.");
         }
-        if (rate.type() != type()) {
+        // A handler can hold rates of different types, for example falloff and
+        // chemically-activated ones
+        string oldType = type();
+        if (m_indices.find(rxn_index) != m_indices.end()) {
+            oldType = m_rxn_rates.at(m_indices[rxn_index]).second.type();
+        }
+        if (rate.type() != oldType) {
             throw CanteraError("MultiRate::replace",
                  "Invalid operation: cannot replace rate object of type '{}' "
-                 "with a new rate of type '{}'.", type(), rate.type());
+                 "with a new rate of type '{}'.", oldType, rate.type());
         }
         m_shared.invalidateCache();
         if (m_indices.find(rxn_index) != m_indices.end()) {
-- 
2.43.0


From e834cb1e066165653833eae7e2beace4b9ef2eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:18 +0000
Subject: [PATCH 047/127] fix: Species.thermo of species without a species
 thermo model of their own

---
 interfaces/cython/cantera/speciesthermo.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cython/cantera/speciesthermo.pyx b/interfaces/cython/cantera/speciesthermo.pyx
index d35a90f..fe27b19 100644
--- a/interfaces/cython/cantera/speciesthermo.pyx
+++ b/interfaces/cython/cantera/speciesthermo.pyx
@@ -269,7 +269,7 @@ cdef wrapSpeciesThermo(shared_ptr[CxxSpeciesThermo] spthermo):
     elif thermo_type == SPECIES_THERMO_SHOMATE2:
         st = ShomatePoly2(init=False)
     else:
-        st = SpeciesThermo()
+        st = SpeciesThermo(init=False)
 
     st._assign(spthermo)
     return st
-- 
2.43.0


From e075bd085c91ce1cb5a75929ac7ef7a732f0a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 048/127] fix: check species, element and phase indices in
 MultiPhase accessors

---
 src/equil/MultiPhase.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index bb980b5..4ca2c39 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -190,12 +190,14 @@ void MultiPhase::checkPhaseArraySize(size_t mm) const
 
 double MultiPhase::speciesMoles(size_t k) const
 {
+    checkSpeciesIndex(k);
     size_t ip = m_spphase[k];
     return m_moles[ip]*m_moleFractions[k];
 }
 
 double MultiPhase::elementMoles(size_t m) const
 {
+    checkElementIndex(m);
     double sum = 0.0;
     for (size_t i = 0; i < nPhases(); i++) {
         double phasesum = 0.0;
@@ -236,6 +238,7 @@ size_t MultiPhase::speciesIndex(const string& speciesName, const string& phaseNa
 
 double MultiPhase::phaseCharge(size_t p) const
 {
+    checkPhaseIndex(p);
     double phasesum = 0.0;
     size_t nsp = m_phase[p]->nSpecies();
     for (size_t ik = 0; ik < nsp; ik++) {
@@ -733,6 +736,7 @@ void MultiPhase::checkElementArraySize(size_t mm) const
 
 string MultiPhase::elementName(size_t m) const
 {
+    checkElementIndex(m);
     return m_enames[m];
 }
 
@@ -762,11 +766,14 @@ void MultiPhase::checkSpeciesArraySize(size_t kk) const
 
 string MultiPhase::speciesName(const size_t k) const
 {
+    checkSpeciesIndex(k);
     return m_snames[k];
 }
 
 double MultiPhase::nAtoms(const size_t kGlob, const size_t mGlob) const
 {
+    checkSpeciesIndex(kGlob);
+    checkElementIndex(mGlob);
     return m_atoms(mGlob, kGlob);
 }
 
@@ -777,6 +784,7 @@ void MultiPhase::getMoleFractions(double* const x) const
 
 string MultiPhase::phaseName(const size_t iph) const
 {
+    checkPhaseIndex(iph);
     return m_phase[iph]->name();
 }
 
@@ -792,26 +800,31 @@ int MultiPhase::phaseIndex(const string& pName) const
 
 double MultiPhase::phaseMoles(const size_t n) const
 {
+    checkPhaseIndex(n);
     return m_moles[n];
 }
 
 void MultiPhase::setPhaseMoles(const size_t n, const double moles)
 {
+    checkPhaseIndex(n);
     m_moles[n] = moles;
 }
 
 size_t MultiPhase::speciesPhaseIndex(const size_t kGlob) const
 {
+    checkSpeciesIndex(kGlob);
     return m_spphase[kGlob];
 }
 
 double MultiPhase::moleFraction(const size_t kGlob) const
 {
+    checkSpeciesIndex(kGlob);
     return m_moleFractions[kGlob];
 }
 
 bool MultiPhase::tempOK(const size_t p) const
 {
+    checkPhaseIndex(p);
     return m_temp_OK[p];
 }
 
-- 
2.43.0


From ea2231f845b842dffdaf17d59f656793225931b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:33 +0000
Subject: [PATCH 049/127] fix: MultiPhase::volume uses the state of the mixture

---
 src/equil/MultiPhase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equil/MultiPhase.cpp b/src/equil/MultiPhase.cpp
index 4ca2c39..ca1e659 100644
--- a/src/equil/MultiPhase.cpp
+++ b/src/equil/MultiPhase.cpp
@@ -480,6 +480,9 @@ void MultiPhase::calcElemAbundances() const
 double MultiPhase::volume() const
 {
     double sum = 0;
+    if (m_init) {
+        updatePhases();
+    }
     for (size_t i = 0; i < nPhases(); i++) {
         double vol = 1.0/m_phase[i]->molarDensity();
         sum += m_moles[i] * vol;
-- 
2.43.0


From eddfa82ed0ed780b92c271d657786d4991a7b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:11 +0000
Subject: [PATCH 050/127] fix: numbers of three and four digits written to YAML
 with low precision

---
 src/base/AnyMap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index 810cdf3..9502f55 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -200,9 +200,10 @@ string formatDouble(double x, long int precision)
         return x > 0 ? ".inf" : "-.inf";
     }
 
-    // Build string with full precision
-    bool useExp = std::abs(x) < 1e-2 || std::abs(x) >= 1e4;
-    int log10x = 0;
+    // Build string with full precision. The fixed notation needs at least one digit to
+    // the right of the decimal place.
+    int log10x = static_cast<int>(std::floor(std::log10(std::abs(x))));
+    bool useExp = std::abs(x) < 1e-2 || std::abs(x) >= 1e4 || precision <= log10x;
     size_t last;
     string s0;
     if (useExp) {
@@ -217,7 +218,6 @@ string formatDouble(double x, long int precision)
             last = s0.find('e') - 1; // backstop; slower, but will always work
         }
     } else {
-        log10x = static_cast<int>(std::floor(std::log10(std::abs(x))));
         s0 = fmt::format("{:.{}f}", x, precision - log10x);
         last = s0.size() - 1; // last digit
     }
-- 
2.43.0


From 563df081966d4d0e4cf0396366c12b47f1fa1834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:11 +0000
Subject: [PATCH 051/127] fix: comparison of AnyValue objects after
 conversions, of matrices and of empty values

---
 include/cantera/base/AnyMap.inl.h | 5 +++--
 src/base/AnyMap.cpp               | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cantera/base/AnyMap.inl.h b/include/cantera/base/AnyMap.inl.h
index f53dc02..d1a3dcf 100644
--- a/include/cantera/base/AnyMap.inl.h
+++ b/include/cantera/base/AnyMap.inl.h
@@ -204,7 +204,8 @@ bool AnyValue::vector2_eq(const std::any& lhs, const std::any& rhs)
         return false;
     } else {
         for (size_t i = 0; i < lvec.size(); i++) {
-            if (!std::equal(lvec[i].begin(), lvec[i].end(), rvec[i].begin())) {
+            if (!std::equal(lvec[i].begin(), lvec[i].end(),
+                            rvec[i].begin(), rvec[i].end())) {
                 return false;
             }
         }
@@ -258,7 +259,7 @@ bool AnyValue::eq_comparer(const std::any& lhs, const std::any& rhs)
     } else if (ltype == typeid(vector<vd>) && rtype == typeid(vector<vi>)) {
         return vector2_eq<vd, vi>(lhs, rhs);
     } else if (ltype == typeid(vector<vi>) && rtype == typeid(vector<vd>)) {
-        return vector2_eq<vd, vi>(lhs, rhs);
+        return vector2_eq<vi, vd>(lhs, rhs);
     }
     return false;
 }
diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index 9502f55..dbcc600 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -668,12 +668,15 @@ AnyValue::~AnyValue() = default;
 
 bool AnyValue::operator==(const AnyValue& other) const
 {
+    if (empty() || other.empty()) {
+        return empty() == other.empty();
+    }
     return m_equals(m_value, other.m_value);
 }
 
 bool AnyValue::operator!=(const AnyValue& other) const
 {
-    return !m_equals(m_value, other.m_value);
+    return !(*this == other);
 }
 
 AnyValue& AnyValue::operator[](const string& key)
@@ -1412,6 +1415,7 @@ const vector<AnyMap>& AnyValue::asVector<AnyMap>(size_t nMin, size_t nMax) const
         const_cast<AnyValue*>(this)->m_value = vector<AnyMap>();
     }
     const auto& vv = as<vector<AnyMap>>();
+    m_equals = eq_comparer<vector<AnyMap>>;
     checkSize(vv, nMin, nMax);
     return vv;
 }
@@ -1427,6 +1431,7 @@ vector<AnyMap>& AnyValue::asVector<AnyMap>(size_t nMin, size_t nMax)
         m_value = vector<AnyMap>();
     }
     auto& vv = as<vector<AnyMap>>();
+    m_equals = eq_comparer<vector<AnyMap>>;
     checkSize(vv, nMin, nMax);
     return vv;
 }
-- 
2.43.0


From 2c42e65f4983eb67c3cb6a40ab149ad63342456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:37 +0000
Subject: [PATCH 052/127] fix: activation energies in multiples of K such as kK

---
 src/base/Units.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/Units.cpp b/src/base/Units.cpp
index fd1566d..57d49e5 100644
--- a/src/base/Units.cpp
+++ b/src/base/Units.cpp
@@ -525,7 +525,7 @@ void UnitSystem::setDefaultActivationEnergy(const string& e_units)
     if (u.convertible(Units("J/kmol"))) {
         m_activation_energy_factor = u.factor();
     } else if (u.convertible(knownUnits.at("K"))) {
-        m_activation_energy_factor = GasConstant;
+        m_activation_energy_factor = u.factor() * GasConstant;
     } else if (u.convertible(knownUnits.at("eV"))) {
         m_activation_energy_factor = u.factor() * Avogadro;
     } else {
@@ -713,7 +713,7 @@ double UnitSystem::convertActivationEnergyTo(double value,
     if (dest.convertible(Units("J/kmol"))) {
         return value * m_activation_energy_factor / dest.factor();
     } else if (dest.convertible(knownUnits.at("K"))) {
-        return value * m_activation_energy_factor / GasConstant;
+        return value * m_activation_energy_factor / (GasConstant * dest.factor());
     } else if (dest.convertible(knownUnits.at("eV"))) {
         return value * m_activation_energy_factor / (Avogadro * dest.factor());
     } else {
@@ -728,7 +728,7 @@ double UnitSystem::convertActivationEnergyFrom(double value, const string& src)
     if (usrc.convertible(Units("J/kmol"))) {
         return value * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("K"))) {
-        return value * GasConstant / m_activation_energy_factor;
+        return value * GasConstant * usrc.factor() / m_activation_energy_factor;
     } else if (usrc.convertible(knownUnits.at("eV"))) {
         return value * Avogadro * usrc.factor() / m_activation_energy_factor;
     } else {
-- 
2.43.0


From bafc3699c2509b7d09dbbcecc93c66d743b6bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:37 +0000
Subject: [PATCH 053/127] fix: a prefix by itself is not a unit

---
 src/base/Units.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/Units.cpp b/src/base/Units.cpp
index 57d49e5..4447dcd 100644
--- a/src/base/Units.cpp
+++ b/src/base/Units.cpp
@@ -171,7 +171,7 @@ Units::Units(const string& name, bool force_unity)
             // See if the unit looks like a prefix + base unit
             string prefix = unit.substr(0, 1);
             string suffix = unit.substr(1);
-            if (prefixes.find(prefix) != prefixes.end() &&
+            if (!suffix.empty() && prefixes.find(prefix) != prefixes.end() &&
                 knownUnits.find(suffix) != knownUnits.end()) {
                 Units u = knownUnits.at(suffix);
                 u.scale(prefixes.at(prefix));
-- 
2.43.0


From 95d24abb905155c2cb670fc4e3c450cc2bdba0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:37 +0000
Subject: [PATCH 054/127] fix: explicit units of rate constants with
 non-integer reaction orders

---
 src/base/Units.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/base/Units.cpp b/src/base/Units.cpp
index 4447dcd..6e838e7 100644
--- a/src/base/Units.cpp
+++ b/src/base/Units.cpp
@@ -198,12 +198,14 @@ Units::Units(const string& name, bool force_unity)
 
 bool Units::convertible(const Units& other) const
 {
-    return (m_mass_dim == other.m_mass_dim &&
-            m_length_dim == other.m_length_dim &&
-            m_time_dim == other.m_time_dim &&
-            m_temperature_dim == other.m_temperature_dim &&
-            m_current_dim == other.m_current_dim &&
-            m_quantity_dim == other.m_quantity_dim);
+    // Allow for round-off in sums of non-integer exponents
+    auto same = [](double a, double b) { return std::abs(a - b) < 1e-9; };
+    return (same(m_mass_dim, other.m_mass_dim) &&
+            same(m_length_dim, other.m_length_dim) &&
+            same(m_time_dim, other.m_time_dim) &&
+            same(m_temperature_dim, other.m_temperature_dim) &&
+            same(m_current_dim, other.m_current_dim) &&
+            same(m_quantity_dim, other.m_quantity_dim));
 }
 
 Units& Units::operator*=(const Units& other)
-- 
2.43.0


From b120755348ea396558a16acf0f87305226240157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:48 +0000
Subject: [PATCH 055/127] fix: units of activation energies of LinearBurke
 colliders

---
 src/kinetics/LinearBurkeRate.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/LinearBurkeRate.cpp b/src/kinetics/LinearBurkeRate.cpp
index 85e1c48..a7328b0 100644
--- a/src/kinetics/LinearBurkeRate.cpp
+++ b/src/kinetics/LinearBurkeRate.cpp
@@ -147,8 +147,11 @@ void LinearBurkeRate::setParameters(const AnyMap& node, const UnitStack& rate_un
             colliders[0][eig_eps_key]["A"].asDouble();
         params["b"] = colliders[i][eig_eps_key]["b"].asDouble() -
             colliders[0][eig_eps_key]["b"].asDouble();
-        params["Ea"] = colliders[i][eig_eps_key]["Ea"].asDouble() -
-            colliders[0][eig_eps_key]["Ea"].asDouble();
+        double dEa = colliders[i].units().convertActivationEnergy(
+                colliders[i][eig_eps_key]["Ea"], "K")
+            - colliders[0].units().convertActivationEnergy(
+                colliders[0][eig_eps_key]["Ea"], "K");
+        params["Ea"] = colliders[i].units().convertActivationEnergyFrom(dEa, "K");
 
         if (params["A"].asDouble() < 0) {
             throw InputFileError("LinearBurkeRate::setParameters", colliders[i],
-- 
2.43.0


From 63ced7f3c7802b39453d45dafcbef6feb7830a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:33 +0000
Subject: [PATCH 056/127] fix: grid refinement by size ratio respects the
 minimum grid spacing

---
 src/oneD/refine.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oneD/refine.cpp b/src/oneD/refine.cpp
index 28f6b9c..912d11b 100644
--- a/src/oneD/refine.cpp
+++ b/src/oneD/refine.cpp
@@ -152,8 +152,10 @@ int Refiner::analyze(size_t n, const double* z, const double* x)
         // Add a new point if the ratio with left interval is too large.
         // Extra points around the interval set under consideration are kept.
         if (dz[j] > m_ratio*dz[j-1]) {
-            m_insertPts.insert(j);
-            m_componentNames.insert(fmt::format("point {}", j));
+            if (dz[j] >= 2*m_gridmin) {
+                m_insertPts.insert(j);
+                m_componentNames.insert(fmt::format("point {}", j));
+            }
             m_keep[j-1] = KEEP;
             m_keep[j] = KEEP;
             m_keep[j+1] = KEEP;
@@ -162,8 +164,10 @@ int Refiner::analyze(size_t n, const double* z, const double* x)
 
         // Add a point if the ratio with right interval is too large
         if (dz[j-1] > m_ratio*dz[j]) {
-            m_insertPts.insert(j-1);
-            m_componentNames.insert(fmt::format("point {}", j-1));
+            if (dz[j-1] >= 2*m_gridmin) {
+                m_insertPts.insert(j-1);
+                m_componentNames.insert(fmt::format("point {}", j-1));
+            }
             m_keep[j-2] = KEEP;
             m_keep[j-1] = KEEP;
             m_keep[j] = KEEP;
-- 
2.43.0


From d3b0c1cac5d4e858787208e195ce69d4744fb340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:33 +0000
Subject: [PATCH 057/127] fix: grid refinement does not remove the ends of an
 interval it divides

---
 src/oneD/refine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oneD/refine.cpp b/src/oneD/refine.cpp
index 912d11b..ec4d5b9 100644
--- a/src/oneD/refine.cpp
+++ b/src/oneD/refine.cpp
@@ -201,6 +201,12 @@ int Refiner::analyze(size_t n, const double* z, const double* x)
         }
     }
 
+    // Keep both ends of the intervals where points are inserted
+    for (size_t j : m_insertPts) {
+        m_keep[j] = KEEP;
+        m_keep[j+1] = KEEP;
+    }
+
     // Don't allow pruning to remove multiple adjacent grid points
     // in a single pass.
     for (size_t j = 2; j < n-1; j++) {
-- 
2.43.0


From 0e2f176a475d85a928522313e390618d71fa4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:33 +0000
Subject: [PATCH 058/127] fix: saturation temperature at a pressure that is not
 a number

---
 src/tpx/Sub.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tpx/Sub.cpp b/src/tpx/Sub.cpp
index 6d69c43..465bed0 100644
--- a/src/tpx/Sub.cpp
+++ b/src/tpx/Sub.cpp
@@ -280,7 +280,7 @@ double Substance::x()
 double Substance::Tsat(double p)
 {
     double Tsave = T;
-    if (p <= 0. || p > Pcrit()) {
+    if (!(p > 0. && p <= Pcrit())) {
         // @todo: this check should also fail below the triple point pressure
         // (calculated as Ps() for Tmin() as it is not available as a numerical
         // parameter). A bug causing low-temperature TP setters to fail for
-- 
2.43.0


From 152dfa3f45d0c2a757f1ae7bae8bedace096e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:33 +0000
Subject: [PATCH 059/127] fix: unsuccessful saturation calculations leave the
 state unchanged

---
 src/tpx/Sub.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/tpx/Sub.cpp b/src/tpx/Sub.cpp
index 465bed0..ede1b2e 100644
--- a/src/tpx/Sub.cpp
+++ b/src/tpx/Sub.cpp
@@ -302,8 +302,14 @@ double Substance::Tsat(double p)
     while (fabs(dp) > tol) {
         T = std::min(T, Tcrit());
         T = std::max(T, Tmin());
-        dp = p - Ps();
-        double dt = dp/dPsdT();
+        double dt;
+        try {
+            dp = p - Ps();
+            dt = dp/dPsdT();
+        } catch (CanteraError&) {
+            T = Tsave;
+            throw;
+        }
         double dta = fabs(dt);
         double dtm = 0.1*T;
         if (dta > dtm) {
@@ -510,6 +516,12 @@ void Substance::update_sat()
 {
     if (T != Tslast) {
         double Rho_save = Rho;
+        // Restore the density of the state even if there is no convergence
+        struct Restore {
+            double& target;
+            double value;
+            ~Restore() { target = value; }
+        } restore{Rho, Rho_save};
         double pp = Psat(); // illegal temperatures are caught by Psat()
         double lps = log(pp);
         // trial value = Psat from correlation
@@ -566,7 +578,6 @@ void Substance::update_sat()
             Pst = pp;
             Tslast = T;
         }
-        Rho = Rho_save;
     }
 }
 
-- 
2.43.0


From 2459649a159d3ebc5cbfdd115fd45ae585d357a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:33 +0000
Subject: [PATCH 060/127] fix: coverage equations of several surface phases

---
 src/kinetics/ImplicitSurfChem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics/ImplicitSurfChem.cpp b/src/kinetics/ImplicitSurfChem.cpp
index 9630738..e2e8565 100644
--- a/src/kinetics/ImplicitSurfChem.cpp
+++ b/src/kinetics/ImplicitSurfChem.cpp
@@ -166,7 +166,7 @@ void ImplicitSurfChem::eval(double time, double* y, double* ydot, double* p)
         double sum = 0.0;
         for (size_t k = 1; k < m_nsp[n]; k++) {
             ydot[k + loc] = m_work[k] * rs0 * m_surf[n]->size(k);
-            sum -= ydot[k];
+            sum -= ydot[k + loc];
         }
         ydot[loc] = sum;
         loc += m_nsp[n];
-- 
2.43.0


From 4c29cb20f2529f694e252c347ae6b907a15d0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:49 +0000
Subject: [PATCH 061/127] fix: concentrations of surface species that occupy
 several sites

---
 include/cantera/thermo/SurfPhase.h |  3 +++
 src/thermo/SurfPhase.cpp           | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/cantera/thermo/SurfPhase.h b/include/cantera/thermo/SurfPhase.h
index 6022bc4..cdd15b9 100644
--- a/include/cantera/thermo/SurfPhase.h
+++ b/include/cantera/thermo/SurfPhase.h
@@ -307,6 +307,9 @@ public:
 protected:
     void compositionChanged() override;
 
+    //! Mean number of sites occupied by one molecule
+    double meanSize() const;
+
     //! Surface site density (kmol m-2)
     double m_n0 = 1.0;
 
diff --git a/src/thermo/SurfPhase.cpp b/src/thermo/SurfPhase.cpp
index 5432272..fe35564 100644
--- a/src/thermo/SurfPhase.cpp
+++ b/src/thermo/SurfPhase.cpp
@@ -208,7 +208,7 @@ void SurfPhase::setSiteDensity(double n0)
                            "Site density must be positive. Got {}", n0);
     }
     m_n0 = n0;
-    assignDensity(n0 * meanMolecularWeight());
+    assignDensity(n0 * meanMolecularWeight() / meanSize());
     m_logn0 = log(m_n0);
 }
 
@@ -297,7 +297,19 @@ void SurfPhase::setState(const AnyMap& state) {
 void SurfPhase::compositionChanged()
 {
     ThermoPhase::compositionChanged();
-    assignDensity(m_n0 * meanMolecularWeight());
+    assignDensity(m_n0 * meanMolecularWeight() / meanSize());
+}
+
+double SurfPhase::meanSize() const
+{
+    double sum_X = 0.0;
+    double sum_X_s = 0.0;
+    for (size_t k = 0; k < std::min(m_kk, m_speciesSize.size()); k++) {
+        double X = moleFraction(k);
+        sum_X += X;
+        sum_X_s += X * m_speciesSize[k];
+    }
+    return (sum_X > 0.0 && sum_X_s > 0.0) ? sum_X_s / sum_X : 1.0;
 }
 
 void SurfPhase::_updateThermo(bool force) const
-- 
2.43.0


From dde998295cd9008f4c3c28d0fcb5cac2da8c2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:13 +0000
Subject: [PATCH 062/127] fix: surface problem solver does not carry its
 damping factor over between problems

---
 src/kinetics/solveSP.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/kinetics/solveSP.cpp b/src/kinetics/solveSP.cpp
index 7499a61..0f93e01 100644
--- a/src/kinetics/solveSP.cpp
+++ b/src/kinetics/solveSP.cpp
@@ -14,7 +14,7 @@ namespace Cantera
 
 // STATIC ROUTINES DEFINED IN THIS FILE
 
-static double calc_damping(double* x, double* dx, size_t dim, int*);
+static double calc_damping(double* x, double* dx, size_t dim, int*, double&);
 static double calcWeightedNorm(const double [], const double dx[], size_t);
 
 // solveSP Class Definitions
@@ -96,6 +96,7 @@ int solveSP::solveSurfProb(int ifunc, double time_scale, double TKelvin,
     int label_t=-1; // Species IDs for time control
     int label_d = -1; // Species IDs for damping control
     int label_t_old=-1;
+    double damp_old = 1.0; // damping factor of the previous iteration
     double label_factor = 1.0;
     int iter=0; // iteration number on nonlinear solver
     int iter_max=1000; // maximum number of nonlinear iterations
@@ -201,7 +202,8 @@ int solveSP::solveSurfProb(int ifunc, double time_scale, double TKelvin,
 
         // Calculate the Damping factor needed to keep all unknowns between 0
         // and 1, and not allow too large a change (factor of 2) in any unknown.
-        damp = calc_damping(m_CSolnSP.data(), m_resid.data(), m_neq, &label_d);
+        damp = calc_damping(m_CSolnSP.data(), m_resid.data(), m_neq, &label_d,
+                            damp_old);
 
         // Calculate the weighted norm of the update vector Here, resid is the
         // delta of the solution, in concentration units.
@@ -469,11 +471,11 @@ void solveSP::resjac_eval(DenseMatrix& jac, double resid[], double CSoln[],
  * that the step can take.  If the full step would not force any fraction
  * outside of 0-1, then Newton's method is allowed to operate normally.
  */
-static double calc_damping(double x[], double dxneg[], size_t dim, int* label)
+static double calc_damping(double x[], double dxneg[], size_t dim, int* label,
+                           double& damp_old)
 {
     const double APPROACH = 0.80;
     double damp = 1.0;
-    static double damp_old = 1.0; //! @todo this variable breaks thread safety
     *label = -1;
 
     for (size_t i = 0; i < dim; i++) {
-- 
2.43.0


From e0565a0585fb808000b30f7a5bcd34075c53d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:13 +0000
Subject: [PATCH 063/127] fix: restoring concentrations after an unsuccessful
 surface solution

---
 src/kinetics/ImplicitSurfChem.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/kinetics/ImplicitSurfChem.cpp b/src/kinetics/ImplicitSurfChem.cpp
index e2e8565..92cccef 100644
--- a/src/kinetics/ImplicitSurfChem.cpp
+++ b/src/kinetics/ImplicitSurfChem.cpp
@@ -268,15 +268,22 @@ void ImplicitSurfChem::getConcSpecies(double* const vecConcSpecies) const
 void ImplicitSurfChem::setConcSpecies(const double* const vecConcSpecies)
 {
     size_t kstart;
+    auto setConc = [](ThermoPhase* phase, const double* conc) {
+        if (phase->isCompressible()) {
+            phase->setConcentrations(conc);
+        } else {
+            // The total concentration follows from the composition
+            phase->setMoleFractions(conc);
+        }
+    };
     for (size_t ip = 0; ip < m_surf.size(); ip++) {
-        ThermoPhase* TP_ptr = m_surf[ip];
         kstart = m_specStartIndex[ip];
-        TP_ptr->setConcentrations(vecConcSpecies + kstart);
+        setConc(m_surf[ip], vecConcSpecies + kstart);
     }
     kstart = m_nv;
     for (size_t ip = 0; ip < m_bulkPhases.size(); ip++) {
         ThermoPhase* TP_ptr = m_bulkPhases[ip];
-        TP_ptr->setConcentrations(vecConcSpecies + kstart);
+        setConc(TP_ptr, vecConcSpecies + kstart);
         kstart += TP_ptr->nSpecies();
     }
 }
-- 
2.43.0


From 822de00f02e5c6e9499f821df362d83c808992f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:00 +0000
Subject: [PATCH 064/127] fix: writing strings that consist of line breaks to
 YAML

---
 src/base/AnyMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index dbcc600..cd9dc82 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -389,6 +389,10 @@ void emitString(YAML::Emitter& out, const string& str0) {
 
     // Remove leading and trailing whitespace
     size_t left = str0.find_first_not_of("\n\t ");
+    if (left == string::npos) {
+        out << YAML::DoubleQuoted << str0;
+        return;
+    }
     size_t right = str0.find_last_not_of("\n\t ");
     string str1 = str0.substr(left, right - left + 1);
     out << YAML::Literal << str1;
-- 
2.43.0


From 7e50fcaf37d5e03682013add46e34c8d35b704d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:20 +0000
Subject: [PATCH 065/127] fix: periodic functions at negative arguments

---
 include/cantera/numerics/Func1.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cantera/numerics/Func1.h b/include/cantera/numerics/Func1.h
index 44db9f5..5198857 100644
--- a/include/cantera/numerics/Func1.h
+++ b/include/cantera/numerics/Func1.h
@@ -831,8 +831,7 @@ public:
     }
 
     double eval(double t) const override {
-        int np = int(t/m_c);
-        double time = t - np*m_c;
+        double time = t - std::floor(t/m_c)*m_c;
         return m_f1->eval(time);
     }
 };
-- 
2.43.0


From 2a6bca71c9bd5d7cf6e59cde32068dc1fb7004f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:20 +0000
Subject: [PATCH 066/127] fix: roots of even powers at negative arguments

---
 src/numerics/Func1.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index d4b93e1..eb53869 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -743,7 +743,9 @@ shared_ptr<Func1> newCompositeFunction(shared_ptr<Func1> f1, shared_ptr<Func1> f
     if (isPow(f1) && f1->c() == 0.0) {
         return make_shared<Const1>(1.);
     }
-    if (isPow(f1) && isPow(f2)) {
+    if (isPow(f1) && isPow(f2)
+        && (std::floor(f1->c()) == f1->c() || std::fmod(f2->c(), 2.) != 0.)) {
+        // Exponents are not combined for roots of even powers, for example sqrt(x^2)
         return make_shared<Pow1>(f1->c() * f2->c());
     }
     return make_shared<Composite1>(f1, f2);
-- 
2.43.0


From de4dc066fea2aa16f6f10fe1961e9b2cdd13a2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:20 +0000
Subject: [PATCH 067/127] fix: sums and differences with a function multiplied
 by zero

---
 src/numerics/Func1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index eb53869..8b3b08d 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -573,6 +573,9 @@ pair<bool, double> isProportional(
 {
     bool tc1 = isTimesConst(f1);
     bool tc2 = isTimesConst(f2);
+    if (tc1 && f1->c() == 0.) {
+        return {false, 0.};
+    }
     if (!tc1 && !tc2) {
         if (f1->isIdentical(f2)) {
             return {true, 1.0};
-- 
2.43.0


From 0e6b3394e9177228c708c1044795a55d81dd642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:20 +0000
Subject: [PATCH 068/127] fix: derivative of tabulated functions before the
 first point

---
 src/numerics/Func1.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/numerics/Func1.cpp b/src/numerics/Func1.cpp
index 8b3b08d..b4da8e9 100644
--- a/src/numerics/Func1.cpp
+++ b/src/numerics/Func1.cpp
@@ -389,7 +389,9 @@ shared_ptr<Func1> Tabulated1::derivative() const {
     vector<double> dvec;
     size_t siz = m_tvec.size();
     if (m_isLinear) {
-        // piece-wise continuous derivative
+        // piece-wise continuous derivative; zero before the first point
+        tvec.push_back(m_tvec[0]);
+        dvec.push_back(0.);
         if (siz>1) {
             for (size_t i=1; i<siz; i++) {
                 double d = (m_fvec[i] - m_fvec[i-1]) /
-- 
2.43.0


From 2d2c8c5c8153689a302fd419951a65fb970524d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:00 +0000
Subject: [PATCH 069/127] fix: gas state of surface solutions which need a
 second attempt

---
 src/kinetics/ImplicitSurfChem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kinetics/ImplicitSurfChem.cpp b/src/kinetics/ImplicitSurfChem.cpp
index 92cccef..0cb3d48 100644
--- a/src/kinetics/ImplicitSurfChem.cpp
+++ b/src/kinetics/ImplicitSurfChem.cpp
@@ -197,9 +197,8 @@ void ImplicitSurfChem::solvePseudoSteadyStateProblem(int ifuncOverride,
     // Get the specifications for the problem from the values
     // in the ThermoPhase objects for all phases.
     //
-    //  1) concentrations of all species in all phases, m_concSpecies[]
-    //  2) Temperature and pressure
-    getConcSpecies(m_concSpecies.data());
+    //  1) Temperature and pressure
+    //  2) concentrations of all species in all phases, m_concSpecies[]
     InterfaceKinetics* ik = m_vecKinPtrs[0];
     ThermoPhase& tp = ik->thermo(0);
     double TKelvin = tp.temperature();
@@ -211,6 +210,7 @@ void ImplicitSurfChem::solvePseudoSteadyStateProblem(int ifuncOverride,
     if (m_commonTempPressForPhases) {
         setCommonState_TP(TKelvin, PGas);
     }
+    getConcSpecies(m_concSpecies.data());
 
     double reltol = 1.0E-6;
     double atol = 1.0E-20;
-- 
2.43.0


From 1c4c167e6a46265c01917db160ae3ab5bf78b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:00 +0000
Subject: [PATCH 070/127] fix: Python functions in functors which outlive their
 Python Func1 object

---
 include/cantera/cython/funcWrapper.h | 18 +++++++++++++++---
 interfaces/cython/cantera/func1.pxd  |  1 -
 interfaces/cython/cantera/func1.pyx  | 20 +++++++++++---------
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/include/cantera/cython/funcWrapper.h b/include/cantera/cython/funcWrapper.h
index 670691b..66de857 100644
--- a/include/cantera/cython/funcWrapper.h
+++ b/include/cantera/cython/funcWrapper.h
@@ -73,14 +73,12 @@ private:
 class CallbackError : public Cantera::CanteraError
 {
 public:
-    //! Constructor used by Func1Py
+    //! Constructor used by Func1Py. Takes ownership of the references.
     CallbackError(void* type, void* value) :
         CanteraError("Python callback function"),
         m_type((PyObject*) type),
         m_value((PyObject*) value)
     {
-        Py_XINCREF(m_type);
-        Py_XINCREF(m_value);
     }
 
     //! Constructor used by pyOverride()
@@ -146,8 +144,22 @@ public:
     Func1Py(callback_wrapper callback, void* pyobj) :
         m_callback(callback),
         m_pyobj(pyobj) {
+        // Functors can be shared with other C++ objects, and can outlive the Python
+        // object used to create them
+        Py_XINCREF(static_cast<PyObject*>(m_pyobj));
+    }
+
+    ~Func1Py() override {
+        if (Py_IsInitialized()) {
+            PyGILState_STATE state = PyGILState_Ensure();
+            Py_XDECREF(static_cast<PyObject*>(m_pyobj));
+            PyGILState_Release(state);
+        }
     }
 
+    Func1Py(const Func1Py&) = delete;
+    Func1Py& operator=(const Func1Py&) = delete;
+
     double eval(double t) const override {
         void* err[2] = {0, 0};
         double y = m_callback(t, m_pyobj, err);
diff --git a/interfaces/cython/cantera/func1.pxd b/interfaces/cython/cantera/func1.pxd
index 9757c95..87fb7c6 100644
--- a/interfaces/cython/cantera/func1.pxd
+++ b/interfaces/cython/cantera/func1.pxd
@@ -56,7 +56,6 @@ cdef class Func1:
     cdef shared_ptr[CxxFunc1] _func
     cdef CxxFunc1* func
     cdef object callable
-    cdef object exception
     cpdef void _set_callback(self, object) except *
     @staticmethod
     cdef shared_ptr[CxxFunc1] _make_cxx_func1(string, tuple) except *
diff --git a/interfaces/cython/cantera/func1.pyx b/interfaces/cython/cantera/func1.pyx
index 1de48b6..3130366 100644
--- a/interfaces/cython/cantera/func1.pyx
+++ b/interfaces/cython/cantera/func1.pyx
@@ -2,6 +2,7 @@
 # at https://cantera.org/license.txt for license and copyright information.
 
 import sys
+from cpython.ref cimport Py_INCREF
 cimport numpy as np
 import numpy as np
 import warnings
@@ -11,18 +12,19 @@ from ._utils cimport *
 
 cdef double func_callback(double t, void* obj, void** err) except? 0.0:
     """
-    This function is called from C/C++ to evaluate a `Func1` object ``obj``,
-    returning the value of the function at ``t``. If an exception occurs while
-    evaluating the function, the Python exception info is saved in the
-    two-element array ``err``.
+    This function is called from C/C++ to evaluate a Python function, where ``obj`` is
+    the callable object, returning the value of the function at ``t``. If an exception
+    occurs while evaluating the function, new references to the Python exception info
+    are saved in the two-element array ``err``.
     """
     try:
-        return (<Func1>obj).callable(t)
+        return (<object>obj)(t)
     except BaseException as e:
         exc_type, exc_value = sys.exc_info()[:2]
 
-        # Stash the exception info to prevent it from being garbage collected
-        (<Func1>obj).exception = exc_type, exc_value
+        # Keep the exception info from being garbage collected
+        Py_INCREF(exc_type)
+        Py_INCREF(exc_value)
         err[0] = <void*>exc_type
         err[1] = <void*>exc_value
         return 0.0
@@ -99,7 +101,6 @@ cdef class Func1:
         construction are added.
     """
     def __cinit__(self, *args, **kwargs):
-        self.exception = None
         self.callable = None
 
     def __init__(self, c, *args, init=True):
@@ -139,7 +140,8 @@ cdef class Func1:
 
     cpdef void _set_callback(self, c) except *:
         self.callable = c
-        self._func.reset(new CxxFunc1Py(func_callback, <void*>self))
+        # The C++ object holds a reference to the callable, as it can outlive this object
+        self._func.reset(new CxxFunc1Py(func_callback, <void*>c))
         self.func = self._func.get()
 
     @property
-- 
2.43.0


From adac4fbb9612d3be6c4ea94003291b46ad412796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:00 +0000
Subject: [PATCH 071/127] fix: stale rate constants after an exception in the
 evaluation of a rate

---
 include/cantera/kinetics/MultiRate.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/cantera/kinetics/MultiRate.h b/include/cantera/kinetics/MultiRate.h
index 7de54e3..e5bf45e 100644
--- a/include/cantera/kinetics/MultiRate.h
+++ b/include/cantera/kinetics/MultiRate.h
@@ -72,8 +72,14 @@ public:
     }
 
     void getRateConstants(double* kf) override {
-        for (auto& [iRxn, rate] : m_rxn_rates) {
-            kf[iRxn] = rate.evalFromStruct(m_shared);
+        try {
+            for (auto& [iRxn, rate] : m_rxn_rates) {
+                kf[iRxn] = rate.evalFromStruct(m_shared);
+            }
+        } catch (...) {
+            // ensure that rates are evaluated again for the same state
+            m_shared.invalidateCache();
+            throw;
         }
     }
 
@@ -179,7 +185,13 @@ public:
         if (changed) {
             // call helper function only if needed: implementation depends on whether
             // ReactionRate::updateFromStruct is defined
-            _update();
+            try {
+                _update();
+            } catch (...) {
+                // ensure that rates are updated again for the same state
+                m_shared.invalidateCache();
+                throw;
+            }
         }
         return changed;
     }
-- 
2.43.0


From 0946fa5792d9f5cd5248ccb111329dd7dd282683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:01 +0000
Subject: [PATCH 072/127] fix: crash for falloff reactions with a species on
 both sides of the equation

---
 src/kinetics/Reaction.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index e3e9c9c..1daf452 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -399,6 +399,7 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
     }
 
     string third_body;
+    string generic_body; // name of the generic or falloff collider, if present
     size_t count = 0;
     size_t countM = 0;
     for (const auto& [name, stoich] : reactants) {
@@ -409,6 +410,9 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
                 || third_body == "(+M)"  || third_body == "(+ M)";
             count++;
             countM += generic;
+            if (generic || ba::starts_with(third_body, "(+")) {
+                generic_body = third_body;
+            }
             if (stoich > 1 && products[third_body] > 1) {
                 count++;
                 countM += generic;
@@ -431,9 +435,10 @@ void Reaction::setEquation(const string& equation, const Kinetics* kin)
     } else if (count > 1) {
         // equations with more than one explicit third-body collider are handled as a
         // regular elementary reaction unless the equation contains a generic third body
-        if (countM) {
-            // generic collider 'M' is selected as third body
-            third_body = "M";
+        if (!generic_body.empty()) {
+            // generic collider 'M' or the collider of a falloff reaction, for example
+            // '(+M)' or '(+AR)', is selected as third body
+            third_body = generic_body;
         } else if (m_third_body) {
             // third body is defined as explicit object
             auto& effs = m_third_body->efficiencies;
-- 
2.43.0


From be2477f3dcb4b378c633fb14562c75672aba71c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:01 +0000
Subject: [PATCH 073/127] fix: reaction equations without or with several
 arrows were accepted

---
 src/kinetics/Reaction.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index 1daf452..6dbd500 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -885,6 +885,7 @@ void parseReactionEquation(Reaction& R, const string& equation,
 
     size_t last_used = npos; // index of last-used token
     bool reactants = true;
+    size_t arrows = 0;
     for (size_t i = 1; i < tokens.size(); i++) {
         if (tokens[i] == "+" || ba::starts_with(tokens[i], "(+") ||
             tokens[i] == "<=>" || tokens[i] == "=" || tokens[i] == "=>") {
@@ -937,11 +938,18 @@ void parseReactionEquation(Reaction& R, const string& equation,
         if (tokens[i] == "<=>" || tokens[i] == "=") {
             R.reversible = true;
             reactants = false;
+            arrows++;
         } else if (tokens[i] == "=>") {
             R.reversible = false;
             reactants = false;
+            arrows++;
         }
     }
+    if (arrows != 1) {
+        throw InputFileError("parseReactionEquation", reactionNode,
+            "Reaction equation '{}' needs to contain exactly one of '<=>', '=>' and "
+            "'='.", equation);
+    }
 }
 
 vector<shared_ptr<Reaction>> getReactions(const AnyValue& items, Kinetics& kinetics)
-- 
2.43.0


From e0c9e9b1c7ee46659cec79ffb72ad1a2d861ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:01 +0000
Subject: [PATCH 074/127] fix: fpValueCheck accepted text without digits

---
 src/base/stringUtils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/base/stringUtils.cpp b/src/base/stringUtils.cpp
index b7f4d82..a226721 100644
--- a/src/base/stringUtils.cpp
+++ b/src/base/stringUtils.cpp
@@ -135,6 +135,7 @@ double fpValueCheck(const string& val)
     }
     int numDot = 0;
     int numExp = 0;
+    bool mantissa = false; // found a digit before the exponent
     char ch;
     int istart = 0;
     ch = str[0];
@@ -147,6 +148,9 @@ double fpValueCheck(const string& val)
     for (size_t i = istart; i < str.size(); i++) {
         ch = str[i];
         if (isdigit(ch)) {
+            if (!numExp) {
+                mantissa = true;
+            }
         } else if (ch == '.') {
             numDot++;
             if (numDot > 1) {
@@ -178,6 +182,9 @@ double fpValueCheck(const string& val)
             throw CanteraError("fpValueCheck", "Trouble processing string '{}'", str);
         }
     }
+    if (!mantissa) {
+        throw CanteraError("fpValueCheck", "string '{}' contains no digits", val);
+    }
     return fpValue(str);
 }
 
-- 
2.43.0


From 80881cb563b9f53a2059b7f62e2d10824b3790a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:01 +0000
Subject: [PATCH 075/127] fix: composition strings without the last value or
 with a repeated zero

---
 src/base/stringUtils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/base/stringUtils.cpp b/src/base/stringUtils.cpp
index a226721..68ea097 100644
--- a/src/base/stringUtils.cpp
+++ b/src/base/stringUtils.cpp
@@ -61,6 +61,7 @@ Composition parseCompString(const string& ss, const vector<string>& names)
     for (size_t k = 0; k < names.size(); k++) {
         x[names[k]] = 0.0;
     }
+    set<string> found;
 
     size_t start = 0;
     size_t stop = 0;
@@ -71,6 +72,10 @@ Composition parseCompString(const string& ss, const vector<string>& names)
             break;
         }
         size_t valstart = ss.find_first_not_of(" \t\n", colon+1);
+        if (valstart == npos) {
+            throw CanteraError("parseCompString", "Missing value in composition string "
+                "'{}'", ss);
+        }
         stop = ss.find_first_of(", ;\n\t", valstart);
         string name = ba::trim_copy(ss.substr(start, colon-start));
         if (!names.empty() && x.find(name) == x.end()) {
@@ -98,7 +103,7 @@ Composition parseCompString(const string& ss, const vector<string>& names)
                 throw;
             }
         }
-        if (getValue(x, name, 0.0) != 0.0) {
+        if (!found.insert(name).second) {
             throw CanteraError("parseCompString",
                                "Duplicate key: '" + name + "'.");
         }
-- 
2.43.0


From 320d29c46e983d10b58cce2ed32e68697c7f6a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:01 +0000
Subject: [PATCH 076/127] fix: stoichiometric coefficients lost digits in the
 reaction equation

---
 src/kinetics/Reaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index 6dbd500..d96f296 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -342,7 +342,7 @@ string Reaction::reactantString() const
             result << " + ";
         }
         if (iter->second != 1.0) {
-            result << iter->second << " ";
+            result << fmt::format("{:.15g}", iter->second) << " ";
         }
         result << iter->first;
     }
@@ -360,7 +360,7 @@ string Reaction::productString() const
             result << " + ";
         }
         if (iter->second != 1.0) {
-            result << iter->second << " ";
+            result << fmt::format("{:.15g}", iter->second) << " ";
         }
         result << iter->first;
     }
-- 
2.43.0


From 8a5e7562108344e3e5983580f28f93e84c83dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:14 +0000
Subject: [PATCH 077/127] fix: Array2D::appendColumn wrote outside of the array

---
 src/base/Array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/Array.cpp b/src/base/Array.cpp
index 9d0c346..93d84a1 100644
--- a/src/base/Array.cpp
+++ b/src/base/Array.cpp
@@ -56,7 +56,7 @@ void Array2D::appendColumn(const vector<double>& c)
     m_ncols++;
     m_data.resize(m_nrows * m_ncols);
     for (size_t m = 0; m < m_nrows; m++) {
-        value(m_ncols, m) = c[m];
+        value(m, m_ncols - 1) = c[m];
     }
 }
 
@@ -65,7 +65,7 @@ void Array2D::appendColumn(const double* const c)
     m_ncols++;
     m_data.resize(m_nrows * m_ncols);
     for (size_t m = 0; m < m_nrows; m++) {
-        value(m_ncols, m) = c[m];
+        value(m, m_ncols - 1) = c[m];
     }
 }
 
-- 
2.43.0


From 6183903839b064b58b9252474d6b153c43df2323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:14 +0000
Subject: [PATCH 078/127] fix: values assigned outside of the band appeared in
 other elements of BandMatrix

---
 src/numerics/BandMatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/numerics/BandMatrix.cpp b/src/numerics/BandMatrix.cpp
index 110cd5d..b08c934 100644
--- a/src/numerics/BandMatrix.cpp
+++ b/src/numerics/BandMatrix.cpp
@@ -149,6 +149,7 @@ double& BandMatrix::value(size_t i, size_t j)
 {
     m_factored = false;
     if (i + m_ku < j || i > j + m_kl) {
+        m_zero = 0.0; // discard a value assigned through a previous reference
         return m_zero;
     }
     return data[index(i,j)];
-- 
2.43.0


From 0f2d5815b3e8970f3faafe05b14c6f4d23d97a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:14 +0000
Subject: [PATCH 079/127] fix: MultiJac kept the diagonal of the previous
 Jacobian after a reset

---
 src/oneD/MultiJac.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oneD/MultiJac.cpp b/src/oneD/MultiJac.cpp
index 94f2684..207f4f7 100644
--- a/src/oneD/MultiJac.cpp
+++ b/src/oneD/MultiJac.cpp
@@ -21,6 +21,7 @@ MultiJac::MultiJac(OneDim& r)
 void MultiJac::reset()
 {
     m_mat.bfill(0.0);
+    m_ssdiag.assign(m_ssdiag.size(), 0.0);
     m_age = 10000;
 }
 
@@ -28,7 +29,7 @@ void MultiJac::initialize(size_t nVars)
 {
     m_dim = nVars;
     m_mat.resize(m_dim, m_mat.nSubDiagonals(), m_mat.nSuperDiagonals());
-    m_ssdiag.resize(m_dim);
+    m_ssdiag.assign(m_dim, 0.0);
     m_mask.resize(m_dim);
 }
 
-- 
2.43.0


From 9a2ddbdefe06167275829934634ac4244f1d6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 080/127] fix: clearing a CLib cabinet failed after an object
 was deleted

---
 src/clib/Cabinet.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/clib/Cabinet.h b/src/clib/Cabinet.h
index fba0977..b304919 100644
--- a/src/clib/Cabinet.h
+++ b/src/clib/Cabinet.h
@@ -90,7 +90,10 @@ public:
     static int clear() {
         dataRef data = getData();
         for (size_t i = 0; i < data.size(); i++) {
-            del(static_cast<int>(i));
+            if (data[i]) {
+                // skip objects which are already deleted
+                del(static_cast<int>(i));
+            }
         }
         return 0;
     }
-- 
2.43.0


From 30968aa758b1327bfb90a557352e992ed2338e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 081/127] fix: CLib handles of deleted objects still had a
 parent

---
 src/clib/Cabinet.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/clib/Cabinet.h b/src/clib/Cabinet.h
index b304919..50a6cd3 100644
--- a/src/clib/Cabinet.h
+++ b/src/clib/Cabinet.h
@@ -153,6 +153,7 @@ public:
         if (n < 0 || n >= len(parents)) {
             throw CanteraError("Cabinet::parent", "Index {} out of range.", n);
         }
+        at(n); // throws an exception if the object has been deleted
         return parents[n];
     }
 
-- 
2.43.0


From 96cbd56cad2849b8407182eef3bd0025a31716a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 082/127] fix: CLib transport handle was lost when setting a
 transport model failed

---
 src/clib/ct.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/clib/ct.cpp b/src/clib/ct.cpp
index 206ad20..97f55b8 100644
--- a/src/clib/ct.cpp
+++ b/src/clib/ct.cpp
@@ -191,9 +191,13 @@ extern "C" {
     {
         try {
             auto soln = SolutionCabinet::at(n);
-            TransportCabinet::del(
-                TransportCabinet::index(*(soln->transport()), n));
+            // keep the existing object until the new model has been set successfully
+            auto old = soln->transport();
             soln->setTransportModel(model);
+            int index = old ? TransportCabinet::index(*old, n) : -1;
+            if (index >= 0) {
+                TransportCabinet::del(index);
+            }
             return TransportCabinet::add(soln->transport(), n);
         } catch (...) {
             return handleAllExceptions(-1, ERR);
-- 
2.43.0


From c9474338e512bfceaf95069d8e0e2837959f1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 083/127] fix: kin_phase did not find the handle of the phase

---
 src/clib/Cabinet.h | 12 ++++++++++++
 src/clib/ct.cpp    | 11 ++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/clib/Cabinet.h b/src/clib/Cabinet.h
index 50a6cd3..8927332 100644
--- a/src/clib/Cabinet.h
+++ b/src/clib/Cabinet.h
@@ -204,6 +204,18 @@ public:
         return -2;  // not found
     }
 
+    /**
+     * Return the index of the last entry referencing the specified object
+     * irrespective of its parent, or -1 if the object is not in the Cabinet.
+     */
+    static int find(const M& obj) {
+        lookupRef lookup = getLookup();
+        if (!lookup.count(&obj) || lookup.at(&obj).empty()) {
+            return -1;
+        }
+        return *lookup.at(&obj).rbegin();
+    }
+
 private:
     /**
      * Static function that returns a pointer to the data member of
diff --git a/src/clib/ct.cpp b/src/clib/ct.cpp
index 97f55b8..8c7edb6 100644
--- a/src/clib/ct.cpp
+++ b/src/clib/ct.cpp
@@ -1405,7 +1405,16 @@ extern "C" {
         try {
             auto& kin = KineticsCabinet::at(n);
             kin->checkPhaseIndex(i);
-            return ThermoCabinet::index(kin->thermo(i));
+            auto& phase = kin->thermo(i);
+            int index = ThermoCabinet::index(phase, KineticsCabinet::parent(n));
+            if (index < 0) {
+                // phase belongs to another Solution object
+                index = ThermoCabinet::find(phase);
+            }
+            if (index < 0) {
+                throw CanteraError("kin_phase", "Phase {} has no handle.", i);
+            }
+            return index;
         } catch (...) {
             return handleAllExceptions(npos, npos);
         }
-- 
2.43.0


From 028037cdb4107dcf7a351c3b34f121dce68543a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 084/127] fix: missing checks of indices and array sizes in the
 CLib

---
 src/clib/ct.cpp              | 16 +++++++++++++++-
 src/clib/ctmultiphase.cpp    |  4 ++--
 src/clib/ctonedim.cpp        | 37 ++++++++++++++++++++++++++++++++----
 src/clib/ctreactor.cpp       |  4 +++-
 src/clib/ctrpath.cpp         |  8 ++++++--
 src/zeroD/ReactorSurface.cpp |  4 ++++
 6 files changed, 63 insertions(+), 10 deletions(-)

diff --git a/src/clib/ct.cpp b/src/clib/ct.cpp
index 8c7edb6..81d991e 100644
--- a/src/clib/ct.cpp
+++ b/src/clib/ct.cpp
@@ -1136,7 +1136,9 @@ extern "C" {
     size_t kin_start(int n, int p)
     {
         try {
-            return KineticsCabinet::at(n)->kineticsSpeciesIndex(0,p);
+            auto& kin = KineticsCabinet::at(n);
+            kin->checkPhaseIndex(p);
+            return kin->kineticsSpeciesIndex(0, p);
         } catch (...) {
             return handleAllExceptions(npos, npos);
         }
@@ -1511,6 +1513,9 @@ extern "C" {
     int trans_getThermalDiffCoeffs(int n, int ldt, double* dt)
     {
         try {
+            if (ldt < 0) {
+                throw CanteraError("trans_getThermalDiffCoeffs", "Array size must not be negative.");
+            }
             auto& tr = TransportCabinet::at(n);
             tr->checkSpeciesArraySize(ldt);
             tr->getThermalDiffCoeffs(dt);
@@ -1523,6 +1528,9 @@ extern "C" {
     int trans_getMixDiffCoeffs(int n, int ld, double* d)
     {
         try {
+            if (ld < 0) {
+                throw CanteraError("trans_getMixDiffCoeffs", "Array size must not be negative.");
+            }
             auto& tr = TransportCabinet::at(n);
             tr->checkSpeciesArraySize(ld);
             tr->getMixDiffCoeffs(d);
@@ -1535,6 +1543,9 @@ extern "C" {
     int trans_getBinDiffCoeffs(int n, int ld, double* d)
     {
         try {
+            if (ld < 0) {
+                throw CanteraError("trans_getBinDiffCoeffs", "Array size must not be negative.");
+            }
             // @todo length of d should be passed for bounds checking
             auto& tr = TransportCabinet::at(n);
             tr->checkSpeciesArraySize(ld);
@@ -1548,6 +1559,9 @@ extern "C" {
     int trans_getMultiDiffCoeffs(int n, int ld, double* d)
     {
         try {
+            if (ld < 0) {
+                throw CanteraError("trans_getMultiDiffCoeffs", "Array size must not be negative.");
+            }
             // @todo length of d should be passed for bounds checking
             auto& tr = TransportCabinet::at(n);
             tr->checkSpeciesArraySize(ld);
diff --git a/src/clib/ctmultiphase.cpp b/src/clib/ctmultiphase.cpp
index 653e1c3..0e2b950 100644
--- a/src/clib/ctmultiphase.cpp
+++ b/src/clib/ctmultiphase.cpp
@@ -54,7 +54,7 @@ extern "C" {
     int mix_addPhase(int i, int j, double moles)
     {
         try {
-            mixCabinet::at(i)->addPhase(ThermoCabinet::at(j).get(), moles);
+            mixCabinet::at(i)->addPhase(ThermoCabinet::at(j), moles);
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
@@ -113,7 +113,7 @@ extern "C" {
         try {
             auto& mix = mixCabinet::at(i);
             mix->checkPhaseIndex(p);
-            mix->checkSpeciesIndex(k);
+            mix->phase(p).checkSpeciesIndex(k);
             return mix->speciesIndex(k, p);
         } catch (...) {
             return handleAllExceptions(npos, npos);
diff --git a/src/clib/ctonedim.cpp b/src/clib/ctonedim.cpp
index 102cf20..5ecf7ad 100644
--- a/src/clib/ctonedim.cpp
+++ b/src/clib/ctonedim.cpp
@@ -298,7 +298,11 @@ extern "C" {
     double bdry_massFraction(int i, int k)
     {
         try {
-            return DomainCabinet::as<Boundary1D>(i)->massFraction(k);
+            auto bdry = DomainCabinet::as<Boundary1D>(i);
+            if (k < 0 || k >= static_cast<int>(bdry->nSpecies())) {
+                throw CanteraError("bdry_massFraction", "Species index {} out of range.", k);
+            }
+            return bdry->massFraction(k);
         } catch (...) {
             return handleAllExceptions(DERR, DERR);
         }
@@ -389,6 +393,10 @@ extern "C" {
                                    size_t m, const double* temp)
     {
         try {
+            if (n != m) {
+                throw CanteraError("flow1D_setFixedTempProfile",
+                    "Arrays of length {} and {} do not match.", n, m);
+            }
             vector<double> vpos(n), vtemp(n);
             for (size_t j = 0; j < n; j++) {
                 vpos[j] = pos[j];
@@ -420,6 +428,9 @@ extern "C" {
     int sim1D_new(size_t nd, const int* domains)
     {
         try {
+            if (nd == 0) {
+                throw CanteraError("sim1D_new", "At least one domain is required.");
+            }
             vector<shared_ptr<Domain1D>> d;
             for (size_t n = 0; n < nd; n++) {
                 d.push_back(DomainCabinet::at(domains[n]));
@@ -443,7 +454,11 @@ extern "C" {
     int sim1D_setValue(int i, int dom, int comp, int localPoint, double value)
     {
         try {
-            SimCabinet::at(i)->setValue(dom, comp, localPoint, value);
+            auto& sim = SimCabinet::at(i);
+            sim->checkDomainIndex(dom);
+            sim->domain(dom).checkComponentIndex(comp);
+            sim->domain(dom).checkPointIndex(localPoint);
+            sim->setValue(dom, comp, localPoint, value);
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
@@ -457,6 +472,10 @@ extern "C" {
             auto& sim = SimCabinet::at(i);
             sim->checkDomainIndex(dom);
             sim->domain(dom).checkComponentIndex(comp);
+            if (np != nv || np == 0) {
+                throw CanteraError("sim1D_setProfile",
+                    "Arrays of length {} and {} do not match.", np, nv);
+            }
             vector<double> vv, pv;
             for (size_t n = 0; n < np; n++) {
                 vv.push_back(v[n]);
@@ -537,7 +556,11 @@ extern "C" {
                                 double slope, double curve, double prune)
     {
         try {
-            SimCabinet::at(i)->setRefineCriteria(dom, ratio, slope, curve, prune);
+            auto& sim = SimCabinet::at(i);
+            if (dom != -1) {
+                sim->checkDomainIndex(dom);
+            }
+            sim->setRefineCriteria(dom, ratio, slope, curve, prune);
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
@@ -547,7 +570,11 @@ extern "C" {
     int sim1D_setGridMin(int i, int dom, double gridmin)
     {
         try {
-            SimCabinet::at(i)->setGridMin(dom, gridmin);
+            auto& sim = SimCabinet::at(i);
+            if (dom != -1) {
+                sim->checkDomainIndex(dom);
+            }
+            sim->setGridMin(dom, gridmin);
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
@@ -599,6 +626,7 @@ extern "C" {
             auto& sim = SimCabinet::at(i);
             sim->checkDomainIndex(idom);
             sim->domain(idom).checkComponentIndex(icomp);
+            sim->domain(idom).checkPointIndex(localPoint);
             return sim->value(idom, icomp, localPoint);
         } catch (...) {
             return handleAllExceptions(DERR, DERR);
@@ -611,6 +639,7 @@ extern "C" {
             auto& sim = SimCabinet::at(i);
             sim->checkDomainIndex(idom);
             sim->domain(idom).checkComponentIndex(icomp);
+            sim->domain(idom).checkPointIndex(localPoint);
             return sim->workValue(idom, icomp, localPoint);
         } catch (...) {
             return handleAllExceptions(DERR, DERR);
diff --git a/src/clib/ctreactor.cpp b/src/clib/ctreactor.cpp
index 900758b..a138232 100644
--- a/src/clib/ctreactor.cpp
+++ b/src/clib/ctreactor.cpp
@@ -165,7 +165,9 @@ extern "C" {
     double reactor_massFraction(int i, int k)
     {
         try {
-            return ReactorCabinet::at(i)->massFraction(k);
+            auto& reactor = ReactorCabinet::at(i);
+            reactor->contents().checkSpeciesIndex(k);
+            return reactor->massFraction(k);
         } catch (...) {
             return handleAllExceptions(DERR, DERR);
         }
diff --git a/src/clib/ctrpath.cpp b/src/clib/ctrpath.cpp
index 3b65d44..11f01a3 100644
--- a/src/clib/ctrpath.cpp
+++ b/src/clib/ctrpath.cpp
@@ -284,8 +284,12 @@ extern "C" {
             if (iquiet > 0) {
                 quiet = true;
             }
-            BuilderCabinet::at(i)->build(*KineticsCabinet::at(k), el, fdot,
-                                         *DiagramCabinet::at(idiag), quiet);
+            int status = BuilderCabinet::at(i)->build(*KineticsCabinet::at(k), el, fdot,
+                                                      *DiagramCabinet::at(idiag), quiet);
+            if (status < 0) {
+                throw CanteraError("rbuild_build",
+                    "Unable to build reaction path diagram for element '{}'.", el);
+            }
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
diff --git a/src/zeroD/ReactorSurface.cpp b/src/zeroD/ReactorSurface.cpp
index 7a9681b..b165b72 100644
--- a/src/zeroD/ReactorSurface.cpp
+++ b/src/zeroD/ReactorSurface.cpp
@@ -87,6 +87,10 @@ void ReactorSurface::syncState()
 
 void ReactorSurface::addSensitivityReaction(size_t i)
 {
+    if (!m_kinetics || !m_reactor) {
+        throw CanteraError("ReactorSurface::addSensitivityReaction",
+            "Surface needs to have kinetics and to be installed in a reactor");
+    }
     if (i >= m_kinetics->nReactions()) {
         throw CanteraError("ReactorSurface::addSensitivityReaction",
                            "Reaction number out of range ({})", i);
-- 
2.43.0


From 0581fcfce06ba4b6cd587091a979c02fcb0bbe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:33 +0000
Subject: [PATCH 085/127] fix: printed equation of three-body reactions without
 other reactants or products

---
 src/kinetics/Reaction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index d96f296..3908940 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -347,7 +347,9 @@ string Reaction::reactantString() const
         result << iter->first;
     }
     if (m_third_body) {
-        result << m_third_body->collider();
+        // species removed from both sides may leave the collider only
+        bool alone = reactants.empty() && m_third_body->mass_action;
+        result << (alone ? m_third_body->name() : m_third_body->collider());
     }
     return result.str();
 }
@@ -365,7 +367,8 @@ string Reaction::productString() const
         result << iter->first;
     }
     if (m_third_body) {
-        result << m_third_body->collider();
+        bool alone = products.empty() && m_third_body->mass_action;
+        result << (alone ? m_third_body->name() : m_third_body->collider());
     }
     return result.str();
 }
-- 
2.43.0


From 496f4a86804f768651cb8db53307c2e86f775bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:33 +0000
Subject: [PATCH 086/127] fix: reaction equations starting with an operator
 were accepted

---
 src/kinetics/Reaction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index 3908940..ab815dc 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -893,6 +893,10 @@ void parseReactionEquation(Reaction& R, const string& equation,
         if (tokens[i] == "+" || ba::starts_with(tokens[i], "(+") ||
             tokens[i] == "<=>" || tokens[i] == "=" || tokens[i] == "=>") {
             string species = tokens[i-1];
+            if (species == "+" || species == "=" || species == "=>" || species == "<=>") {
+                throw InputFileError("parseReactionEquation", reactionNode,
+                    "Missing species in reaction string '{}'.", equation);
+            }
 
             double stoich = 1.0;
             bool mass_action = true;
-- 
2.43.0


From 60740da4743c81c8fbe2f3d18b913c8503c45ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:39 +0000
Subject: [PATCH 087/127] fix: reactors added to a network which is already
 initialized

---
 src/zeroD/ReactorNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zeroD/ReactorNet.cpp b/src/zeroD/ReactorNet.cpp
index 81054ac..524d0dd 100644
--- a/src/zeroD/ReactorNet.cpp
+++ b/src/zeroD/ReactorNet.cpp
@@ -319,6 +319,8 @@ void ReactorNet::addReactor(Reactor& r)
     m_timeIsIndependent = r.timeIsIndependent();
     r.setNetwork(this);
     m_reactors.push_back(&r);
+    m_init = false; // size of the state vector changes
+    m_integrator_init = false;
     if (!m_integ) {
         m_integ.reset(newIntegrator(r.isOde() ? "CVODE" : "IDA"));
         // use backward differencing, with a full Jacobian computed
-- 
2.43.0


From 0400b39a430e39bdb407fe1838a6be66cb6a6a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:39 +0000
Subject: [PATCH 088/127] fix: reaction equations with an unterminated third
 body were accepted

---
 src/kinetics/Reaction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kinetics/Reaction.cpp b/src/kinetics/Reaction.cpp
index ab815dc..c5b1f08 100644
--- a/src/kinetics/Reaction.cpp
+++ b/src/kinetics/Reaction.cpp
@@ -900,6 +900,12 @@ void parseReactionEquation(Reaction& R, const string& equation,
 
             double stoich = 1.0;
             bool mass_action = true;
+            if (last_used != npos && ba::starts_with(tokens[last_used], "(+")
+                && (!ba::ends_with(species, ")") || species == ")"))
+            {
+                throw InputFileError("parseReactionEquation", reactionNode,
+                    "Unbalanced parentheses in reaction string '{}'.", equation);
+            }
             if (last_used != npos && tokens[last_used] == "(+"
                     && ba::ends_with(species, ")")) {
                 // Falloff third body with space, such as "(+ M)"
-- 
2.43.0


From 69dab25e73c6223921b786254a831753cfebbe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:00 +0000
Subject: [PATCH 089/127] fix: crash for reactor surfaces without kinetics

---
 src/zeroD/Reactor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zeroD/Reactor.cpp b/src/zeroD/Reactor.cpp
index c9e0271..69c49b7 100644
--- a/src/zeroD/Reactor.cpp
+++ b/src/zeroD/Reactor.cpp
@@ -102,6 +102,11 @@ void Reactor::initialize(double t0)
     m_nv_surf = 0;
     size_t maxnt = 0;
     for (auto& S : m_surfaces) {
+        if (!S->thermo() || !S->kinetics()) {
+            throw CanteraError("Reactor::initialize",
+                "No kinetics have been set for surface '{}' of reactor '{}'",
+                S->name(), m_name);
+        }
         m_nv_surf += S->thermo()->nSpecies();
         size_t nt = S->kinetics()->nTotalSpecies();
         maxnt = std::max(maxnt, nt);
-- 
2.43.0


From 35dcf279868d05f6f10d5b46edc5edf8e73d4b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:03 +0000
Subject: [PATCH 090/127] fix: multicomponent transport used properties of
 another temperature

The collision integrals and the L matrix use binary diffusion coefficients and
viscosities which are also updated by other queries, so they are out of date
whenever the temperature has changed, even if it has since returned to the
temperature of the last evaluation of the multicomponent properties.
---
 src/transport/MultiTransport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index b814de6..f87542c 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -399,6 +399,7 @@ void MultiTransport::update_T()
     GasTransport::update_T();
     // temperature has changed, so polynomial fits will need to be
     // redone, and the L matrix reevaluated.
+    m_thermal_tlast = Undef;
     m_lmatrix_soln_ok = false;
     m_l0000_ok = false;
 }
-- 
2.43.0


From 7af8733f916ac234a4bf4abd409585799bad57bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:04 +0000
Subject: [PATCH 091/127] fix: binary diffusion coefficients changed after
 multicomponent queries

MultiTransport overwrote the diagonal of the matrix of binary diffusion
coefficients, so the self-diffusion coefficients reported by
getBinaryDiffCoeffs (and mixture-averaged coefficients of pure species) as well
as the L matrix depended on the order of preceding queries.
---
 include/cantera/transport/MultiTransport.h |  4 ++++
 src/transport/MultiTransport.cpp           | 17 +++++++++--------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/cantera/transport/MultiTransport.h b/include/cantera/transport/MultiTransport.h
index 937813b..dd9eaa5 100644
--- a/include/cantera/transport/MultiTransport.h
+++ b/include/cantera/transport/MultiTransport.h
@@ -119,6 +119,10 @@ protected:
 
     double m_thermal_tlast;
 
+    //! Binary diffusion coefficients at unit pressure, where the self-diffusion
+    //! coefficients on the diagonal are evaluated from the species viscosities
+    DenseMatrix m_bdiff_mc;
+
     //! Dense matrix for astar
     DenseMatrix m_astar;
 
diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index f87542c..b7ad97a 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -457,9 +457,10 @@ void MultiTransport::updateThermal_T()
         m_rotrelax[k] = std::max(1.0,m_zrot[k]) * m_frot_298[k]/Frot(tr, sqtr);
     }
 
+    m_bdiff_mc = m_bdiff;
     double c = 1.2*GasConstant*m_temp;
     for (size_t k = 0; k < m_nsp; k++) {
-        m_bdiff(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
+        m_bdiff_mc(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
     }
 
     // Calculate the internal heat capacities by subtracting off the translational contributions
@@ -494,15 +495,15 @@ void MultiTransport::eval_L0000(const double* const x)
     for (size_t i = 0; i < m_nsp; i++) {
         // subtract-off the k=i term to account for the first delta
         // function in Eq. (12.121)
-        sum = -x[i]/m_bdiff(i,i);
+        sum = -x[i]/m_bdiff_mc(i,i);
         for (size_t k = 0; k < m_nsp; k++) {
-            sum += x[k]/m_bdiff(i,k);
+            sum += x[k]/m_bdiff_mc(i,k);
         }
 
         sum /= m_mw[i];
         for (size_t j = 0; j != m_nsp; ++j) {
             m_Lmatrix(i,j) = prefactor * x[j]
-                             * (m_mw[j] * sum + x[i]/m_bdiff(i,j));
+                             * (m_mw[j] * sum + x[i]/m_bdiff_mc(i,j));
         }
         // diagonal term is zero
         m_Lmatrix(i,i) = 0.0;
@@ -519,7 +520,7 @@ void MultiTransport::eval_L0010(const double* const x)
         for (size_t i = 0; i < m_nsp; i++) {
             m_Lmatrix(i,j + m_nsp) = - prefactor * x[i] * xj * m_mw[i] *
                                      (1.2 * m_cstar(j,i) - 1.0) /
-                                     ((wj + m_mw[i]) * m_bdiff(j,i));
+                                     ((wj + m_mw[i]) * m_bdiff_mc(j,i));
 
             // the next term is independent of "j";
             // need to do it for the "j,j" term
@@ -555,7 +556,7 @@ void MultiTransport::eval_L1010(const double* x)
         double sum = 0.0;
         for (size_t i = 0; i < m_nsp; i++) {
             double sumwij = m_mw[i] + m_mw[j];
-            double term1 = m_bdiff(i,j) * sumwij*sumwij;
+            double term1 = m_bdiff_mc(i,j) * sumwij*sumwij;
             double term2 = fourmj*m_astar(i,j)*(1.0 + fiveover3pi*
                 (constant3 + (m_crot[i]/m_rotrelax[i]))); //  see Eq. (12.125)
 
@@ -583,7 +584,7 @@ void MultiTransport::eval_L1001(const double* x)
             for (size_t i = 0; i < m_nsp; i++) {
                 // see Eq. (12.127)
                 m_Lmatrix(i+m_nsp,j+2*m_nsp) = constant * m_astar(j,i) * x[i] /
-                                          ((m_mw[j] + m_mw[i]) * m_bdiff(j,i));
+                                          ((m_mw[j] + m_mw[i]) * m_bdiff_mc(j,i));
                 sum += m_Lmatrix(i+m_nsp,j+2*m_nsp);
             }
             m_Lmatrix(j+m_nsp,j+2*m_nsp) += sum;
@@ -633,7 +634,7 @@ void MultiTransport::eval_L0101(const double* x)
             double sum = 0.0;
             for (size_t k = 0; k < m_nsp; k++) {
                 // see Eq. (12.131)
-                double diff_int = m_bdiff(i,k);
+                double diff_int = m_bdiff_mc(i,k);
                 m_Lmatrix(k+2*m_nsp,i+2*m_nsp) = 0.0;
                 sum += x[k]/diff_int;
                 if (k != i) {
-- 
2.43.0


From 19b5221662647e10a4fb5843b42b3cc1a0b93725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:04 +0000
Subject: [PATCH 092/127] fix: multicomponent fluxes without temperature
 gradient

getSpeciesFluxes used the mole fractions of an earlier query and getMassFluxes
solved a singular system if any mole fraction is zero.
---
 src/transport/MultiTransport.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index b7ad97a..3baabf7 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -176,9 +176,10 @@ void MultiTransport::getSpeciesFluxes(size_t ndim, const double* const grad_T,
                                       size_t ldx, const double* const grad_X,
                                       size_t ldf, double* const fluxes)
 {
-    // update the binary diffusion coefficients if necessary
+    // update the binary diffusion coefficients and mole fractions if necessary
     update_T();
     updateDiff_T();
+    update_C();
 
     // If any component of grad_T is non-zero, then get the
     // thermal diffusion coefficients
@@ -282,11 +283,11 @@ void MultiTransport::getMassFluxes(const double* state1, const double* state2,
         x3[n] = 0.5*(x1[n] + x2[n]);
     }
     m_thermo->setState_TPX(t, p, x3);
-    m_thermo->getMoleFractions(m_molefracs.data());
 
-    // update the binary diffusion coefficients if necessary
+    // update the binary diffusion coefficients and mole fractions if necessary
     update_T();
     updateDiff_T();
+    update_C();
 
     // If there is a temperature gradient, then get the
     // thermal diffusion coefficients
-- 
2.43.0


From d0a7923f325649b5589a3d24f1d7cacafe33c93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:04 +0000
Subject: [PATCH 093/127] fix: failed high-pressure transport setup changed the
 composition of the phase

---
 src/transport/HighPressureGasTransport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transport/HighPressureGasTransport.cpp b/src/transport/HighPressureGasTransport.cpp
index 998e077..8b1e825 100644
--- a/src/transport/HighPressureGasTransport.cpp
+++ b/src/transport/HighPressureGasTransport.cpp
@@ -145,6 +145,7 @@ void HighPressureGasTransportBase::initializeCriticalProperties()
         m_thermo->setMoleFractions(&mf_temp[0]);
 
         if (m_thermo->critTemperature() > 1e4) {
+            m_thermo->setMoleFractions(&molefracs[0]);
             throw CanteraError(
                 "HighPressureGasTransport::initializeCriticalProperties",
                 "Species '{}' must have critical properties defined or non-zero "
-- 
2.43.0


From 65a4075335202cffc1bad18f6ab8ab22e9487d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:33 +0000
Subject: [PATCH 094/127] fix: multi_diff_coeffs in Python was the transpose of
 the documented matrix

---
 interfaces/cython/cantera/transport.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/cython/cantera/transport.pyx b/interfaces/cython/cantera/transport.pyx
index e425c85..33d52fd 100644
--- a/interfaces/cython/cantera/transport.pyx
+++ b/interfaces/cython/cantera/transport.pyx
@@ -20,7 +20,8 @@ cdef np.ndarray get_transport_1d(Transport tran, transportMethod1d method):
 
 cdef np.ndarray get_transport_2d(Transport tran, transportMethod2d method):
     cdef size_t kk = tran.thermo.nSpecies()
-    cdef np.ndarray[np.double_t, ndim=2] data = np.empty((kk, kk))
+    # the C++ methods fill the array by columns
+    cdef np.ndarray[np.double_t, ndim=2] data = np.empty((kk, kk), order="F")
     method(tran.transport, kk, &data[0,0])
     return data
 
-- 
2.43.0


From a121a6e91ba04583e5f44c43ab4ee787cab84ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:56 +0000
Subject: [PATCH 095/127] fix: Chemkin input silently dropped or misread by
 ck2yaml

Several keywords on one auxiliary line, superfluous values, data that does not apply
to the reaction type, unit factors for local UNITS, fractional or fifth elements
---
 interfaces/cython/cantera/ck2yaml.py | 124 ++++++++++++++++++++-------
 1 file changed, 95 insertions(+), 29 deletions(-)

diff --git a/interfaces/cython/cantera/ck2yaml.py b/interfaces/cython/cantera/ck2yaml.py
index 4329def..aa72106 100644
--- a/interfaces/cython/cantera/ck2yaml.py
+++ b/interfaces/cython/cantera/ck2yaml.py
@@ -355,7 +355,7 @@ class Arrhenius:
         if compatible_quantities(self.parser.output_quantity_units, self.A[1]):
             out['A'] = self.A[0]
         else:
-            out['A'] = "{0:e} {1}".format(*self.A)
+            out['A'] = "{0} {1}".format(*self.A)
 
         out['b'] = self.b
 
@@ -792,11 +792,14 @@ class Parser:
             try:
                 # Convert to float first for cases where ``count`` is a string
                 # like "2.00".
-                count = int(float(count))
-                if count:
-                    composition[symbol.capitalize()] = count
+                count = float(count)
             except ValueError:
-                pass
+                continue
+            if count != int(count):
+                raise ValueError(f"Number of atoms '{count}' of element '{symbol}' "
+                                 "is not an integer.")
+            if count:
+                composition[symbol.capitalize()] = int(count)
         return composition
 
     @staticmethod
@@ -806,11 +809,11 @@ class Parser:
         units = ''
         if length_dims:
             units += length_units
-        if length_dims > 1:
+        if length_dims not in (0, 1):
             units += '^' + str(length_dims)
         if quantity_dims:
             units += '/' + quantity_units
-        if quantity_dims > 1:
+        if quantity_dims not in (0, 1):
             units += '^' + str(quantity_dims)
         if time_dims:
             units += '/' + time_units
@@ -862,6 +865,12 @@ class Parser:
             for i in range(0, len(comp), 2):
                 composition[comp[i].capitalize()] = int(comp[i+1])
 
+        # A fifth element may be given following the intermediate temperature
+        Tint_field = lines[0][65:75]
+        if len(lines[0]) > 73 and lines[0][73].isalpha():
+            Tint_field = lines[0][65:73]
+            composition.update(self.parse_composition(lines[0][73:78], 1, 5))
+
         # Non-standard extended elemental composition data may be located beyond
         # column 80 on the first line of the thermo entry
         if len(lines[0]) > 80:
@@ -896,7 +905,7 @@ class Parser:
         else:
             # Non-default intermediate temperature can be provided
             try:
-                Tint = fortFloat(lines[0][65:75])
+                Tint = fortFloat(Tint_field)
             except ValueError:
                 Tint = TintDefault if Tmin < TintDefault < Tmax else None
 
@@ -1175,7 +1184,12 @@ class Parser:
         products = []
         stoichiometry = 1
         lhs = True
-        for token, kind in [v for k,v in sorted(locs.items())]:
+        parts = [v for k,v in sorted(locs.items())]
+        for (token, kind), (_, following) in zip(parts, parts[1:] + [(None, None)]):
+            if kind == 'coeff' and following != 'species':
+                raise InputError(f"Unexpected number '{token}' in reaction expression "
+                                 f"'{original_reaction.strip()}'.")
+        for token, kind in parts:
             if kind == 'equal':
                 reversible = token in ('<=>', '=')
                 lhs = False
@@ -1240,20 +1254,45 @@ class Parser:
 
         reaction.third_body = third_body_name_r
 
-        # Determine the appropriate units for k(T) and k(T,P) based on the number of reactants
-        # This assumes elementary kinetics for all reactions
+        # A line may contain several keywords, each followed by its own values
+        aux_lines = []
+        for line in lines[1:]:
+            aux_lines.extend(re.findall(r'[^/]*/[^/]*/|[^/]+(?:/[^/]*)?$', line))
+
+        def read_values(tokens, *counts):
+            """ Values between slashes, which need to be as many as in ``counts`` """
+            values = tokens[1].split()
+            if len(values) not in counts:
+                raise InputError(f"Expected {' or '.join(map(str, counts))} values for "
+                                 f"'{tokens[0].strip()}' but found {len(values)}.")
+            return values
+
+        # Determine the appropriate units for k(T) and k(T,P) based on the number of
+        # reactants, unless other reaction orders are specified
         rStoich = sum(r[0] for r in reaction.reactants) + (1 if third_body else 0)
         if rStoich < 1:
             logger.error(self.entry("reaction") +
                          "No reactant species found in reaction equation.")
 
-        length_dim = 3 * (rStoich - 1)
-        quantity_dim = rStoich - 1
+        for line in aux_lines:
+            if 'ford' in line.lower() and '/' in line:
+                name, order = read_values(line.split('/'), 2)
+                reaction.forward_orders[name] = float(order)
+        order = sum(reaction.forward_orders.values()) + (1 if third_body else 0)
+        order += sum(n for n, species in reaction.reactants
+                     if species.label not in reaction.forward_orders)
+
+        length_dim = 3 * (order - 1)
+        quantity_dim = order - 1
         kunits = self.get_rate_constant_units(length_dim, 'cm',
                                               quantity_dim, quantity_units)
         klow_units = self.get_rate_constant_units(length_dim + 3, 'cm',
                                                   quantity_dim + 1, quantity_units)
 
+        # High-pressure limit of chemically activated reactions
+        khigh_units = self.get_rate_constant_units(length_dim - 3, 'cm',
+                                                   quantity_dim - 1, quantity_units)
+
         # The rest of the first line contains Arrhenius parameters
         arrhenius = Arrhenius(
             A=(A, kunits),
@@ -1276,7 +1315,7 @@ class Parser:
         degreeT = degreeP = None
 
         # Note that the subsequent lines could be in any order
-        for line in lines[1:]:
+        for line in aux_lines:
             if not line.strip():
                 continue
             tokens = line.split('/')
@@ -1302,7 +1341,9 @@ class Parser:
             if 'low' in line.lower():
                 # Low-pressure-limit Arrhenius parameters for "falloff" reaction
                 parsed = True
-                tokens = tokens[1].split()
+                if low_rate is not None:
+                    raise InputError("Multiple 'LOW' entries in reaction.")
+                tokens = read_values(tokens, 3)
                 low_rate = Arrhenius(
                     A=(float(tokens[0].strip()), klow_units),
                     b=float(tokens[1].strip()),
@@ -1314,20 +1355,20 @@ class Parser:
                 # High-pressure-limit Arrhenius parameters for "chemically
                 # activated" reaction
                 parsed = True
-                tokens = tokens[1].split()
+                if high_rate is not None:
+                    raise InputError("Multiple 'HIGH' entries in reaction.")
+                tokens = read_values(tokens, 3)
                 high_rate = Arrhenius(
-                    A=(float(tokens[0].strip()), kunits),
+                    A=(float(tokens[0].strip()), khigh_units),
                     b=float(tokens[1].strip()),
                     Ea=(float(tokens[2].strip()), energy_units),
                     parser=self
                 )
-                # Need to fix units on the base reaction:
-                arrhenius.A = (arrhenius.A[0], klow_units)
 
             elif 'rev' in line.lower():
                 parsed = True
                 reaction.reversible = False
-                tokens = tokens[1].split()
+                tokens = read_values(tokens, 3)
                 # If the A factor in the rev line is zero, don't create the reverse reaction
                 if float(tokens[0].strip()) != 0.0:
                     # Create a reaction proceeding in the opposite direction
@@ -1336,8 +1377,12 @@ class Parser:
                                            third_body=reaction.third_body,
                                            reversible=False)
 
+                    n_rev = (sum(p[0] for p in reaction.products)
+                             + (1 if third_body else 0))
+                    rev_units = self.get_rate_constant_units(
+                        3 * (n_rev - 1), 'cm', n_rev - 1, quantity_units)
                     rev_rate = Arrhenius(
-                        A=(float(tokens[0].strip()), klow_units),
+                        A=(float(tokens[0].strip()), rev_units),
                         b=float(tokens[1].strip()),
                         Ea=(float(tokens[2].strip()), energy_units),
                         parser=self
@@ -1349,13 +1394,15 @@ class Parser:
 
             elif 'ford' in line.lower():
                 parsed = True
-                tokens = tokens[1].split()
+                tokens = read_values(tokens, 2)
                 reaction.forward_orders[tokens[0].strip()] = float(tokens[1])
 
             elif 'troe' in line.lower():
                 # Troe falloff parameters
                 parsed = True
-                tokens = tokens[1].split()
+                if falloff is not None:
+                    raise InputError("Multiple falloff functions in reaction.")
+                tokens = read_values(tokens, 3, 4)
                 falloff = Troe(A=float(tokens[0].strip()),
                                T3=float(tokens[1].strip()),
                                T1=float(tokens[2].strip()),
@@ -1363,7 +1410,9 @@ class Parser:
             elif 'sri' in line.lower():
                 # SRI falloff parameters
                 parsed = True
-                tokens = tokens[1].split()
+                if falloff is not None:
+                    raise InputError("Multiple falloff functions in reaction.")
+                tokens = read_values(tokens, 3, 5)
                 A = float(tokens[0].strip())
                 B = float(tokens[1].strip())
                 C = float(tokens[2].strip())
@@ -1381,7 +1430,7 @@ class Parser:
 
             elif 'cov' in line.lower():
                 parsed = True
-                C = tokens[1].split()
+                C = read_values(tokens, 4)
                 coverages.append(
                     [C[0], fortFloat(C[1]), fortFloat(C[2]), fortFloat(C[3])])
 
@@ -1391,12 +1440,12 @@ class Parser:
                 tokens = [t.strip() for t in tokens]
                 if contains(tokens, 'TCHEB'):
                     index = get_index(tokens, 'TCHEB')
-                    tokens2 = tokens[index+1].split()
+                    tokens2 = read_values(tokens[index:], 2)
                     Tmin = float(tokens2[0].strip())
                     Tmax = float(tokens2[1].strip())
                 if contains(tokens, 'PCHEB'):
                     index = get_index(tokens, 'PCHEB')
-                    tokens2 = tokens[index+1].split()
+                    tokens2 = read_values(tokens[index:], 2)
                     Pmin = (float(tokens2[0].strip()), 'atm')
                     Pmax = (float(tokens2[1].strip()), 'atm')
                 if contains(tokens, 'TCHEB') or contains(tokens, 'PCHEB'):
@@ -1405,6 +1454,9 @@ class Parser:
                     tokens2 = tokens[1].split()
                     degreeT = int(float(tokens2[0].strip()))
                     degreeP = int(float(tokens2[1].strip()))
+                    if degreeT != float(tokens2[0]) or degreeP != float(tokens2[1]):
+                        raise InputError("Number of Chebyshev coefficients is not an "
+                                         f"integer: '{tokens[1].strip()}'.")
                     cheb_coeffs.extend([float(t.strip()) for t in tokens2[2:]])
                 else:
                     tokens2 = tokens[1].split()
@@ -1414,7 +1466,7 @@ class Parser:
                 # Pressure-dependent Arrhenius parameters
                 parsed = True
                 third_body = False # strip optional third-body collider
-                tokens = tokens[1].split()
+                tokens = read_values(tokens, 4)
                 pdep_arrhenius.append([float(tokens[0].strip()), Arrhenius(
                     A=(float(tokens[1].strip()), kunits),
                     b=float(tokens[2].strip()),
@@ -1491,6 +1543,18 @@ class Parser:
         else:
             reaction.kinetics = ElementaryRate(arrhenius)
 
+        # Data that the type of reaction has no use for
+        unused = []
+        if falloff and low_rate is None and high_rate is None:
+            unused.append("falloff function")
+        if efficiencies and not third_body and not third_body_name_r:
+            unused.append("collision efficiencies")
+        if (is_sticking or motz_wise is not None or coverages) and not surface:
+            unused.append("surface reaction options")
+        if unused:
+            logger.error(self.entry("reaction") + "Reaction contains "
+                f"{' and '.join(unused)} which do not apply to its type.")
+
         if revReaction:
             revReaction.duplicate = reaction.duplicate
             revReaction.kinetics.efficiencies = reaction.kinetics.efficiencies
@@ -1848,7 +1912,9 @@ class Parser:
             Boolean indicating whether this is a surface reaction mechanism
         """
         self.current_range = [lines[0,0]] * 2
-        # Reactions section
+        # Reactions section. Units specified in another input file do not apply here.
+        self.energy_units = 'cal/mol'
+        self.quantity_units = 'mol'
         for token in lines[0,2].upper().split():
             if token in ENERGY_UNITS:
                 self.energy_units = ENERGY_UNITS[token]
-- 
2.43.0


From 567f4753b6eef692710fd81186367693f1d5e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:57 +0000
Subject: [PATCH 096/127] fix: mechanisms which yaml2ck exported with a
 different meaning

Default efficiencies, custom atomic weights, fractional or large compositions,
non-ideal phases, reference pressures, multi-line notes, sorting by molar mass
---
 interfaces/cython/cantera/yaml2ck.py | 75 ++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 15 deletions(-)

diff --git a/interfaces/cython/cantera/yaml2ck.py b/interfaces/cython/cantera/yaml2ck.py
index b9cc030..83b3f05 100644
--- a/interfaces/cython/cantera/yaml2ck.py
+++ b/interfaces/cython/cantera/yaml2ck.py
@@ -57,6 +57,7 @@ from __future__ import annotations
 import sys
 import math
 import argparse
+from collections import namedtuple
 from pathlib import Path
 from textwrap import fill, dedent, TextWrapper
 import cantera as ct
@@ -96,6 +97,11 @@ CALORIES_CONSTANT = 4184.0
 DEBYE_CONVERSION = 1e-21 / ct.light_speed
 
 
+# Element as defined in the phase, where the atomic weight may differ from the
+# standard value used by `ct.Element`
+_PhaseElement = namedtuple("_PhaseElement", ["symbol", "weight"])
+
+
 class HeaderTextWrapper(TextWrapper):
     """Wrap header text from a YAML file, including Cantera metadata.
 
@@ -144,15 +150,27 @@ class HeaderTextWrapper(TextWrapper):
 def build_elements_text(elements: Iterable[ct.Element], max_width=80) -> str:
     """Create element definition text.
 
+    The atomic weight is included for elements where it differs from the standard value.
+
     :param elements:
-        List of `cantera.Element` instances for the elements in this file.
+        List of `cantera.Element` instances (or other objects with the attributes
+        ``symbol`` and ``weight``) for the elements in this file.
     :param max_width:
         The maximum width of a line in this section.
 
     .. versionadded:: 3.0
     """
+    def element_text(element):
+        try:
+            standard_weight = ct.Element(element.symbol).weight
+        except ValueError:
+            standard_weight = None
+        if element.weight == standard_weight:
+            return element.symbol
+        return f"{element.symbol}/{element.weight}/"
+
     elements_text = fill(
-        " ".join(e.symbol for e in elements),
+        " ".join(element_text(e) for e in elements),
         width=max_width,
         break_long_words=False,
         break_on_hyphens=False,
@@ -180,6 +198,7 @@ def build_species_text(species: Iterable[ct.Species], max_width=80) -> str:
         species_lines = []
         for name, note in species_names.items():
             if note and len(note) > 6:
+                note = " ".join(note.split())
                 species_lines.append(f"{name:<{max_species_len}} ! {note}")
             else:
                 species_lines.append(name)
@@ -271,6 +290,12 @@ def build_thermodynamics_text(
             )
         atoms = ""
         for atom, amount in spec.composition.items():
+            if amount != int(amount) or not -100 < amount < 1000:
+                raise NotImplementedError(
+                    f"Species '{spec.name}' has an unsupported amount of element "
+                    f"'{atom}': {amount}. Only integers with at most three digits are "
+                    "supported."
+                )
             atoms += f"{atom:<2}{int(amount):>3d}"
         fmt_data = {"name": spec.name}
         fmt_data["atoms"] = atoms
@@ -288,7 +313,7 @@ def build_thermodynamics_text(
             max_temp = spec.thermo.max_temp
 
         note = str(input_data['thermo'].get('note', ''))
-        if len(note) <= 6:
+        if len(note) <= 6 and "!" not in note and "\n" not in note:
             comment = ""
             fmt_data["note"] = note
         else:
@@ -349,7 +374,7 @@ def build_reactions_text(reactions: Iterable[ct.Reaction], species: Iterable[ct.
     .. versionadded:: 3.0
     """
 
-    species_names = {spec.name for spec in species}
+    species_names = [spec.name for spec in species]
 
     # Note: Cantera converts explicit reverse rate coefficients given by the ``REV``
     # keyword into two independent irreversible reactions. Therefore, there's no need to
@@ -478,14 +503,20 @@ def build_reactions_text(reactions: Iterable[ct.Reaction], species: Iterable[ct.
             raise ValueError(f"Unknown reaction type: '{reac.reaction_type}'")
 
         third = reac.third_body
-        if third is not None and third.name == "M" and len(third.efficiencies):
-            reaction_lines.append(
-                " ".join(
-                    f"{spec}/{value:.3E}/"
-                    for spec, value in reac.third_body.efficiencies.items()
-                    if spec in species_names
-                )
-            )
+        if third is not None and third.name == "M":
+            if third.default_efficiency == 1.0:
+                efficiencies = third.efficiencies
+            else:
+                # The Chemkin format implies a default efficiency of 1, so efficiencies
+                # need to be specified for all species
+                efficiencies = {s: third.efficiency(s) for s in species_names}
+            efficiencies = [
+                f"{spec}/{value:.3E}/"
+                for spec, value in efficiencies.items()
+                if spec in species_names
+            ]
+            if efficiencies:
+                reaction_lines.append(" ".join(efficiencies))
 
         if reac.duplicate:
             reaction_lines.append("DUPLICATE")
@@ -599,6 +630,17 @@ def convert(
         solution_name = Path(solution)
         solution = ct.Solution(solution, phase_name)
 
+    if solution.thermo_model != "ideal-gas":
+        raise NotImplementedError(
+            f"Phases with thermo model '{solution.thermo_model}' are not supported. "
+            "Supported models are: ideal-gas"
+        )
+    if abs(solution.reference_pressure - ct.one_atm) > 1e-6 * ct.one_atm:
+        raise NotImplementedError(
+            f"The reference pressure {solution.reference_pressure} Pa is not supported. "
+            "The Chemkin format implies a reference pressure of 1 atm."
+        )
+
     # NOTE: solution.transport_model returns back a string. If no transport model is
     # present, the string is "none". We guard here against a future API change to
     # return the singleton None.
@@ -613,7 +655,8 @@ def convert(
         mechanism_path = Path(mechanism_path)
         if mechanism_path.is_dir():
             thermo_path = mechanism_path / solution_name.with_suffix(".thermo")
-            transport_path = mechanism_path / solution_name.with_suffix(".tran")
+            if transport_exists:
+                transport_path = mechanism_path / solution_name.with_suffix(".tran")
             mechanism_path = mechanism_path / solution_name.with_suffix(".ck")
 
     if thermo_path is not None:
@@ -650,10 +693,12 @@ def convert(
             f"Got '{sort_species}'"
         )
 
-    all_elements = [ct.Element(e) for e in solution.element_names]
+    all_elements = [
+        _PhaseElement(e, solution.atomic_weight(e)) for e in solution.element_names
+    ]
     if sort_elements == "alphabetical":
         all_elements = sorted(all_elements, key=lambda e: e.symbol)
-    elif sort_elements == "atomic-mass":
+    elif sort_elements == "molar-mass":
         all_elements = sorted(all_elements, key=lambda e: e.weight)
     elif sort_elements is not None:
         raise ValueError(
-- 
2.43.0


From 610bacdf65c707950202aab0568b9f99661aa427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:57 +0000
Subject: [PATCH 097/127] fix: flux of the transferred group in reaction path
 diagrams when the second product contains the first reactant

---
 src/kinetics/ReactionPath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/ReactionPath.cpp b/src/kinetics/ReactionPath.cpp
index 48cbfc2..10752f4 100644
--- a/src/kinetics/ReactionPath.cpp
+++ b/src/kinetics/ReactionPath.cpp
@@ -526,7 +526,7 @@ int ReactionPathBuilder::findGroups(ostream& logfile, Kinetics& s)
                     group_c1 = &p0;
                     if (!b0.valid()) {
                         m_transfer[i][0][1] = r0;
-                        m_transfer[i][1][1] = b0;
+                        m_transfer[i][1][1] = b1;
                         m_transfer[i][1][0] = p0;
                     }
                 } else {
@@ -536,7 +536,7 @@ int ReactionPathBuilder::findGroups(ostream& logfile, Kinetics& s)
                     group_b1 = &b1;
                     if (!b0.valid()) {
                         m_transfer[i][1][0] = r1;
-                        m_transfer[i][0][0] = b0;
+                        m_transfer[i][0][0] = b1;
                         m_transfer[i][0][1] = p1;
                     }
                 }
-- 
2.43.0


From 3854a9e43918ef99d3bbb9b9d82c7de09c9fc988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:57 +0000
Subject: [PATCH 098/127] fix: building a reaction path diagram twice doubled
 all fluxes

---
 include/cantera/kinetics/ReactionPath.h |  3 +++
 src/kinetics/ReactionPath.cpp           | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/cantera/kinetics/ReactionPath.h b/include/cantera/kinetics/ReactionPath.h
index a3ceb8d..a1650a0 100644
--- a/include/cantera/kinetics/ReactionPath.h
+++ b/include/cantera/kinetics/ReactionPath.h
@@ -340,6 +340,9 @@ public:
     //! @}
 
 protected:
+    //! Delete all nodes and paths in the diagram.
+    void clear();
+
     double m_flxmax = 0.0;
     map<size_t, map<size_t, Path*>> m_paths;
 
diff --git a/src/kinetics/ReactionPath.cpp b/src/kinetics/ReactionPath.cpp
index 10752f4..3371c5a 100644
--- a/src/kinetics/ReactionPath.cpp
+++ b/src/kinetics/ReactionPath.cpp
@@ -91,6 +91,11 @@ ReactionPathDiagram::ReactionPathDiagram(
 }
 
 ReactionPathDiagram::~ReactionPathDiagram()
+{
+    clear();
+}
+
+void ReactionPathDiagram::clear()
 {
     // delete the nodes
     for (const auto& [k, node] : m_nodes) {
@@ -102,6 +107,13 @@ ReactionPathDiagram::~ReactionPathDiagram()
     for (size_t n = 0; n < nn; n++) {
         delete m_pathlist[n];
     }
+
+    m_nodes.clear();
+    m_paths.clear();
+    m_pathlist.clear();
+    m_speciesNumber.clear();
+    m_rxns.clear();
+    m_flxmax = 0.0;
 }
 
 vector<int> ReactionPathDiagram::reactions()
@@ -187,6 +199,8 @@ void ReactionPathDiagram::setFlowType(const string& fType)
 
 void ReactionPathDiagram::build()
 {
+    // discard fluxes from a previous call
+    clear();
     m_builder->build(*m_kin.get(), element, m_log, *this, true);
     m_isBuilt = true;
 }
-- 
2.43.0


From f205a61ea9197620e16ca2537faf2cef8450a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:57 +0000
Subject: [PATCH 099/127] fix: nodes of previously rendered paths stayed in
 reaction path diagrams

---
 src/kinetics/ReactionPath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kinetics/ReactionPath.cpp b/src/kinetics/ReactionPath.cpp
index 3371c5a..b6bfe13 100644
--- a/src/kinetics/ReactionPath.cpp
+++ b/src/kinetics/ReactionPath.cpp
@@ -255,6 +255,11 @@ void ReactionPathDiagram::exportToDot(ostream& s)
     double flmax = 0.0;
     s.precision(3);
 
+    // nodes are visible only if they are part of a path shown here
+    for (const auto& [k, node] : m_nodes) {
+        node->visible = false;
+    }
+
     // a directed graph
     s << "digraph " << name << " {" << endl;
 
@@ -280,7 +285,6 @@ void ReactionPathDiagram::exportToDot(ostream& s)
         if (scale <= 0.0) {
             for (size_t i1 = 0; i1 < nNodes(); i1++) {
                 size_t k1 = m_speciesNumber[i1];
-                node(k1)->visible = false;
                 for (size_t i2 = i1+1; i2 < nNodes(); i2++) {
                     size_t k2 = m_speciesNumber[i2];
                     double flx = netFlow(k1, k2);
-- 
2.43.0


From 8b2b5c01206d19bb509ebf001bb248e17163ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:57 +0000
Subject: [PATCH 100/127] fix: invalid dot syntax and line widths of reaction
 path diagrams

---
 src/kinetics/ReactionPath.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/kinetics/ReactionPath.cpp b/src/kinetics/ReactionPath.cpp
index b6bfe13..cb77529 100644
--- a/src/kinetics/ReactionPath.cpp
+++ b/src/kinetics/ReactionPath.cpp
@@ -250,6 +250,20 @@ void ReactionPathDiagram::writeData(ostream& s)
     }
 }
 
+namespace {
+
+//! Line width of a path, where 6 corresponds to a relative flux of 1, and 2 to a
+//! relative flux equal to the threshold
+double lineWidth(double flxratio, double threshold)
+{
+    if (threshold <= 0.0 || threshold == 1.0) {
+        return 6.0;
+    }
+    return 1.0 - 4.0 * log10(flxratio/threshold)/log10(threshold) + 1.0;
+}
+
+}
+
 void ReactionPathDiagram::exportToDot(ostream& s)
 {
     double flmax = 0.0;
@@ -334,8 +348,7 @@ void ReactionPathDiagram::exportToDot(ostream& s)
                         s <<  "[fontname=\""+m_font+"\", penwidth=";
 
                         if (arrow_width < 0) {
-                            double lwidth = 1.0 - 4.0
-                                     * log10(flxratio/threshold)/log10(threshold) + 1.0;
+                            double lwidth = lineWidth(flxratio, threshold);
                             s << lwidth;
                             s << ", arrowsize="
                               <<  std::min(6.0, 0.5*lwidth);
@@ -396,15 +409,14 @@ void ReactionPathDiagram::exportToDot(ostream& s)
                   << " -> s" << p->end()->number;
 
                 if (arrow_width < 0) {
-                    double lwidth = 1.0 - 4.0 * log10(flxratio/threshold)/log10(threshold)
-                             + 1.0;
+                    double lwidth = lineWidth(flxratio, threshold);
                     s <<  "[fontname=\""+m_font+"\", penwidth="
                       << lwidth;
                     s << ", arrowsize="
                       <<  std::min(6.0, 0.5*lwidth);
                 } else {
-                    s <<  ", penwidth="
-                      <<  arrow_width;
+                    s << "[fontname=\""+m_font+"\", penwidth="
+                      << arrow_width;
                     s << ", arrowsize=" << flxratio + 1;
                 }
                 double hue = 0.7;
-- 
2.43.0


From 31e7b7f1807e6bed857f10d40cc62fcacc4fb16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:57 +0000
Subject: [PATCH 101/127] fix: ReactionPathDiagram::add ignored paths missing
 in the first diagram

---
 src/kinetics/ReactionPath.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/kinetics/ReactionPath.cpp b/src/kinetics/ReactionPath.cpp
index cb77529..2e104a5 100644
--- a/src/kinetics/ReactionPath.cpp
+++ b/src/kinetics/ReactionPath.cpp
@@ -141,11 +141,25 @@ vector<int> ReactionPathDiagram::reactions()
 
 void ReactionPathDiagram::add(ReactionPathDiagram& d)
 {
-    for (size_t n = 0; n < nPaths(); n++) {
-        Path* p = path(n);
+    if (m_builder && !m_isBuilt) {
+        build();
+    }
+    if (d.m_builder && !d.m_isBuilt) {
+        d.build();
+    }
+    for (size_t n = 0; n < d.nPaths(); n++) {
+        Path* p = d.path(n);
+        double flow = p->flow();
         size_t k1 = p->begin()->number;
         size_t k2 = p->end()->number;
-        p->setFlow(p->flow() + d.flow(k1,k2));
+        addNode(k1, p->begin()->name, p->begin()->value);
+        addNode(k2, p->end()->name, p->end()->value);
+        if (!m_paths[k1][k2]) {
+            m_paths[k1][k2] = new Path(m_nodes[k1], m_nodes[k2]);
+            m_pathlist.push_back(m_paths[k1][k2]);
+        }
+        m_paths[k1][k2]->setFlow(m_paths[k1][k2]->flow() + flow);
+        m_flxmax = std::max(m_paths[k1][k2]->flow(), m_flxmax);
     }
 }
 
-- 
2.43.0


From cff1bc37913821eb0e199f2a272ee94697d3bc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:57 +0000
Subject: [PATCH 102/127] fix: reaction path diagram overran its buffers after
 reactions were added

---
 src/kinetics/ReactionPath.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/ReactionPath.cpp b/src/kinetics/ReactionPath.cpp
index 2e104a5..59811bf 100644
--- a/src/kinetics/ReactionPath.cpp
+++ b/src/kinetics/ReactionPath.cpp
@@ -624,7 +624,7 @@ void ReactionPathBuilder::findElements(Kinetics& kin)
             }
         }
     }
-    m_atoms.resize(kin.nTotalSpecies(), m_nel, 0.0);
+    m_atoms = Array2D(kin.nTotalSpecies(), m_nel, 0.0);
     // iterate over the elements
     for (size_t m = 0; m < m_nel; m++) {
         size_t k = 0;
@@ -673,7 +673,7 @@ int ReactionPathBuilder::init(ostream& logfile, Kinetics& kin)
     m_ropr.resize(m_nr);
     m_determinate.resize(m_nr);
     m_x.resize(m_ns); // not currently used ?
-    m_elatoms.resize(m_nel, m_nr);
+    m_elatoms = DenseMatrix(m_nel, m_nr, 0.0);
 
     for (size_t i = 0; i < m_nr; i++) {
         // construct the lists of reactant and product indices, not including
@@ -781,6 +781,10 @@ string reactionLabel(size_t i, size_t kr, size_t nr,
 int ReactionPathBuilder::build(Kinetics& s, const string& element,
                                ostream& output, ReactionPathDiagram& r, bool quiet)
 {
+    if (s.nReactions() != m_nr || s.nTotalSpecies() != m_ns) {
+        // reactions or species were added
+        init(output, s);
+    }
     map<size_t, int> warn;
     double threshold = 0.0;
     size_t m = m_enamemap[element]-1;
-- 
2.43.0


From cfe0e1b81333f3117cf4923ba36f697ada006f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:57 +0000
Subject: [PATCH 103/127] fix: element fluxes of reactions with fractional
 stoichiometric coefficients

---
 include/cantera/kinetics/ReactionPath.h |  4 ++
 src/kinetics/ReactionPath.cpp           | 74 ++++++++++++-------------
 2 files changed, 38 insertions(+), 40 deletions(-)

diff --git a/include/cantera/kinetics/ReactionPath.h b/include/cantera/kinetics/ReactionPath.h
index a1650a0..fe3d824 100644
--- a/include/cantera/kinetics/ReactionPath.h
+++ b/include/cantera/kinetics/ReactionPath.h
@@ -389,6 +389,10 @@ protected:
     vector<double> m_x;
     vector<vector<size_t>> m_reac;
     vector<vector<size_t>> m_prod;
+    //! Amounts of the entries of #m_reac and #m_prod; less than one only for species
+    //! with fractional net stoichiometric coefficients
+    vector<vector<double>> m_reacWeight;
+    vector<vector<double>> m_prodWeight;
     DenseMatrix m_elatoms;
     vector<vector<int>> m_groups;
     vector<Group> m_sgroup;
diff --git a/src/kinetics/ReactionPath.cpp b/src/kinetics/ReactionPath.cpp
index 59811bf..06ab649 100644
--- a/src/kinetics/ReactionPath.cpp
+++ b/src/kinetics/ReactionPath.cpp
@@ -502,7 +502,9 @@ int ReactionPathBuilder::findGroups(ostream& logfile, Kinetics& s)
 
         if (m_determinate[i]) {
             logfile << " ... OK." << endl;
-        } else if (m_reac[i].size() == 2 && m_prod[i].size() == 2) {
+        } else if (m_reac[i].size() == 2 && m_prod[i].size() == 2
+                   && m_reacWeight[i] == vector<double>{1.0, 1.0}
+                   && m_prodWeight[i] == vector<double>{1.0, 1.0}) {
             // indices for the two reactants
             size_t kr0 = m_reac[i][0];
             size_t kr1 = m_reac[i][1];
@@ -650,25 +652,12 @@ int ReactionPathBuilder::init(ostream& logfile, Kinetics& kin)
     m_ns = kin.nTotalSpecies();
     m_nr = kin.nReactions();
 
-    // all reactants / products, even ones appearing on both sides of the
-    // reaction
-    vector<vector<size_t>> allProducts(m_nr);
-    vector<vector<size_t>> allReactants(m_nr);
-    for (size_t i = 0; i < m_nr; i++) {
-        for (size_t k = 0; k < m_ns; k++) {
-            for (int n = 0; n < kin.reactantStoichCoeff(k, i); n++) {
-                allReactants[i].push_back(k);
-            }
-            for (int n = 0; n < kin.productStoichCoeff(k, i); n++) {
-                allProducts[i].push_back(k);
-            }
-        }
-    }
-
     // m_reac and m_prod exclude indices for species that appear on
     // both sides of the reaction, so that the diagram contains no loops.
     m_reac.resize(m_nr);
     m_prod.resize(m_nr);
+    m_reacWeight.resize(m_nr);
+    m_prodWeight.resize(m_nr);
     m_ropf.resize(m_nr);
     m_ropr.resize(m_nr);
     m_determinate.resize(m_nr);
@@ -680,27 +669,17 @@ int ReactionPathBuilder::init(ostream& logfile, Kinetics& kin)
         // molecules that appear on both sides.
         m_reac[i].clear();
         m_prod[i].clear();
-        map<size_t, int> net;
-        size_t nr = allReactants[i].size();
-        size_t np = allProducts[i].size();
-        for (size_t ir = 0; ir < nr; ir++) {
-            net[allReactants[i][ir]]--;
-        }
-        for (size_t ip = 0; ip < np; ip++) {
-            net[allProducts[i][ip]]++;
-        }
-
+        m_reacWeight[i].clear();
+        m_prodWeight[i].clear();
         for (size_t k = 0; k < m_ns; k++) {
-            if (net[k] < 0) {
-                size_t nmol = -net[k];
-                for (size_t jr = 0; jr < nmol; jr++) {
-                    m_reac[i].push_back(k);
-                }
-            } else if (net[k] > 0) {
-                size_t nmol = net[k];
-                for (size_t jp = 0; jp < nmol; jp++) {
-                    m_prod[i].push_back(k);
-                }
+            double net = kin.productStoichCoeff(k, i) - kin.reactantStoichCoeff(k, i);
+            // one entry per molecule, where a fractional stoichiometric coefficient
+            // contributes an entry with a weight less than one
+            for (double n = fabs(net); n > 1e-9; n -= 1.0) {
+                auto& species = (net < 0) ? m_reac[i] : m_prod[i];
+                auto& weight = (net < 0) ? m_reacWeight[i] : m_prodWeight[i];
+                species.push_back(k);
+                weight.push_back(std::min(n, 1.0));
             }
         }
 
@@ -712,7 +691,7 @@ int ReactionPathBuilder::init(ostream& logfile, Kinetics& kin)
         for (size_t n = 0; n < nrnet; n++) {
             size_t k = m_reac[i][n];
             for (size_t m = 0; m < m_nel; m++) {
-                m_elatoms(m,i) += m_atoms(k,m);
+                m_elatoms(m,i) += m_reacWeight[i][n] * m_atoms(k,m);
             }
         }
     }
@@ -817,6 +796,19 @@ int ReactionPathBuilder::build(Kinetics& s, const string& element,
             size_t nr = m_reac[i].size();
             size_t np = m_prod[i].size();
 
+            // check whether a species contains the full number of atoms of element m
+            // in the reaction
+            auto complete = [&](size_t kk, const vector<size_t>& species,
+                                const vector<double>& weight) {
+                double total = 0.0;
+                for (size_t j = 0; j < species.size(); j++) {
+                    if (species[j] == kk) {
+                        total += weight[j] * m_atoms(kk, m);
+                    }
+                }
+                return total > (1.0 - 1e-9) * m_elatoms(m, i);
+            };
+
             for (size_t kr = 0; kr < nr; kr++) {
                 size_t kkr = m_reac[i][kr];
                 string fwdlabel = reactionLabel(i, kr, nr, m_reac[i], s);
@@ -847,8 +839,8 @@ int ReactionPathBuilder::build(Kinetics& s, const string& element,
                         // species was the source of a given m-atom in the
                         // product
                         double f;
-                        if ((m_atoms(kkp,m) < m_elatoms(m, i)) &&
-                                (m_atoms(kkr,m) < m_elatoms(m, i))) {
+                        if (!complete(kkp, m_prod[i], m_prodWeight[i]) &&
+                                !complete(kkr, m_reac[i], m_reacWeight[i])) {
                             map<size_t, map<size_t, Group>>& g = m_transfer[i];
                             if (g.empty()) {
                                 if (!warn[i] && !quiet) {
@@ -874,7 +866,9 @@ int ReactionPathBuilder::build(Kinetics& s, const string& element,
                             // product, or only one reactant contains all the
                             // m-atoms. In either case, the number of atoms
                             // transferred is given by the same expression.
-                            f = m_atoms(kkp,m) * m_atoms(kkr,m) / m_elatoms(m, i);
+                            f = m_prodWeight[i][kp] * m_atoms(kkp,m)
+                                * m_reacWeight[i][kr] * m_atoms(kkr,m)
+                                / m_elatoms(m, i);
                         }
 
                         double fwd = ropf*f;
-- 
2.43.0


From 67e0e4d5be844b091bc2e396a571d186ae3e66e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:02 +0000
Subject: [PATCH 104/127] fix: data race on the registry of factories

---
 include/cantera/base/FactoryBase.h | 12 ++++++++++--
 src/base/global.cpp                |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cantera/base/FactoryBase.h b/include/cantera/base/FactoryBase.h
index 939faa4..c10b9cb 100644
--- a/include/cantera/base/FactoryBase.h
+++ b/include/cantera/base/FactoryBase.h
@@ -33,10 +33,14 @@ public:
     //! static function that deletes all factories in the internal registry
     //! maintained in a static variable
     static void deleteFactories() {
-        for (const auto& f : s_vFactoryRegistry) {
+        vector<FactoryBase*> factories;
+        {
+            std::unique_lock<std::mutex> lock(s_registryMutex);
+            factories.swap(s_vFactoryRegistry);
+        }
+        for (const auto& f : factories) {
             f->deleteFactory();
         }
-        s_vFactoryRegistry.clear();
     }
 
 protected:
@@ -46,6 +50,7 @@ protected:
      * Adds the current object to the current static list
      */
     FactoryBase() {
+        std::unique_lock<std::mutex> lock(s_registryMutex);
         s_vFactoryRegistry.push_back(this);
     }
 
@@ -58,6 +63,9 @@ protected:
 private:
     //! statically held list of Factories.
     static vector<FactoryBase*> s_vFactoryRegistry;
+
+    //! Mutex protecting the list of factories, which is shared by all of them
+    static std::mutex s_registryMutex;
 };
 
 //! Factory class that supports registering functions to create objects
diff --git a/src/base/global.cpp b/src/base/global.cpp
index 9d9e1de..34e5c88 100644
--- a/src/base/global.cpp
+++ b/src/base/global.cpp
@@ -209,6 +209,7 @@ bool usesHDF5()
 }
 
 vector<FactoryBase*> FactoryBase::s_vFactoryRegistry;
+std::mutex FactoryBase::s_registryMutex;
 
 string demangle(const std::type_info& type)
 {
-- 
2.43.0


From c5a75c7894ce983dd3547b1c703609376fde7e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:02 +0000
Subject: [PATCH 105/127] fix: data race on the set of issued deprecation
 warnings

---
 src/base/application.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/base/application.cpp b/src/base/application.cpp
index 932942c..379ac6d 100644
--- a/src/base/application.cpp
+++ b/src/base/application.cpp
@@ -84,6 +84,9 @@ void Application::Messages::warnlog(const string& warning, const string& msg)
 //! Mutex for access to string messages
 static std::mutex msg_mutex;
 
+//! Mutex for access to the set of issued deprecation warnings
+static std::mutex warn_mutex;
+
 Application::Messages* Application::ThreadMessages::operator ->()
 {
     std::unique_lock<std::mutex> msgLock(msg_mutex);
@@ -136,10 +139,15 @@ void Application::warn_deprecated(const string& method, const string& extra)
 {
     if (m_fatal_deprecation_warnings) {
         throw CanteraError(method, "Deprecated: " + extra);
-    } else if (m_suppress_deprecation_warnings || warnings.count(method)) {
+    } else if (m_suppress_deprecation_warnings) {
         return;
     }
-    warnings.insert(method);
+    {
+        std::unique_lock<std::mutex> warnLock(warn_mutex);
+        if (!warnings.insert(method).second) {
+            return;
+        }
+    }
     warnlog("Deprecation", fmt::format("{}: {}", method, extra));
 }
 
-- 
2.43.0


From ee23fea255f278d60b269b658212a8411c38dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:02 +0000
Subject: [PATCH 106/127] fix: data race on the table of standard entropies of
 the elements

---
 src/thermo/Phase.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/thermo/Phase.cpp b/src/thermo/Phase.cpp
index 514db4a..5314b9c 100644
--- a/src/thermo/Phase.cpp
+++ b/src/thermo/Phase.cpp
@@ -649,10 +649,20 @@ size_t Phase::addElement(const string& symbol, double weight, int atomic_number,
     // Try to look up the standard entropy if not given. Fail silently.
     if (entropy298 == ENTROPY298_UNKNOWN) {
         try {
-            const static AnyMap db = AnyMap::fromYamlFile(
-                "element-standard-entropies.yaml");
-            const AnyMap& elem = db["elements"].getMapWhere("symbol", symbol);
-            entropy298 = elem.convert("entropy298", "J/kmol/K", ENTROPY298_UNKNOWN);
+            // Extracted once, since retrieving values from AnyMap is not thread-safe
+            const static map<string, double> db = []() {
+                map<string, double> entropies;
+                AnyMap root = AnyMap::fromYamlFile("element-standard-entropies.yaml");
+                for (const auto& elem : root["elements"].asVector<AnyMap>()) {
+                    entropies.emplace(elem["symbol"].asString(),
+                        elem.convert("entropy298", "J/kmol/K", ENTROPY298_UNKNOWN));
+                }
+                return entropies;
+            }();
+            auto elem = db.find(symbol);
+            if (elem != db.end()) {
+                entropy298 = elem->second;
+            }
         } catch (CanteraError&) {
         }
     }
-- 
2.43.0


From 14afaf2bcecb6d71030c945e6a0ce6f6932ea0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:02 +0000
Subject: [PATCH 107/127] fix: data race on the metadata of cached input files

---
 src/base/AnyMap.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index cd9dc82..88dce44 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -1962,16 +1962,17 @@ void formatInputFile(fmt::memory_buffer& b, const shared_ptr<AnyMap>& metadata,
     }
 
     fmt_append(b, "|  Line |\n");
-    if (!metadata->hasKey("file-contents")) {
+    std::stringstream contents;
+    if (metadata->hasKey("file-contents")) {
+        contents.str(metadata->at("file-contents").asString());
+    } else {
+        // Not stored, since the metadata is shared by all users of a cached file
         std::ifstream infile(findInputFile(filename));
-        std::stringstream buffer;
-        buffer << infile.rdbuf();
-        (*metadata)["file-contents"] = buffer.str();
+        contents << infile.rdbuf();
     }
     string line;
     int i = 0;
     int lastShown = -1;
-    std::stringstream contents((*metadata)["file-contents"].asString());
     while (std::getline(contents, line)) {
         if (i == lineno || i == lineno2) {
             fmt_append(b, "> {: 5d} > {}\n", i+1, line);
-- 
2.43.0


From 33fc4009777ebfe4b96f52a23f7915c2de739b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:02 +0000
Subject: [PATCH 108/127] fix: data race when clearing a cached input file

---
 src/base/AnyMap.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index 88dce44..197a056 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -1854,9 +1854,8 @@ bool AnyMap::addOrderingRules(const string& objectType,
 void AnyMap::clearCachedFile(const string& filename)
 {
     string fullName = findInputFile(filename);
-    if (s_cache.count(fullName)) {
-        s_cache.erase(fullName);
-    }
+    std::unique_lock<std::mutex> lock(yaml_cache_mutex);
+    s_cache.erase(fullName);
 }
 
 AnyMap AnyMap::fromYamlString(const string& yaml) {
-- 
2.43.0


From f1a4892cbe957ce6d23d9aac051aac1b09bdc058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:02 +0000
Subject: [PATCH 109/127] fix: data race on the transport models supporting CK
 mode

---
 src/transport/TransportFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/TransportFactory.cpp b/src/transport/TransportFactory.cpp
index 7763a5d..f31d68f 100644
--- a/src/transport/TransportFactory.cpp
+++ b/src/transport/TransportFactory.cpp
@@ -90,7 +90,7 @@ Transport* TransportFactory::newTransport(const string& transportModel,
         dtr->initialize(phase, gastr);
     } else {
         tr = create(transportModel);
-        int mode = m_CK_mode[transportModel] ? CK_Mode : 0;
+        int mode = m_CK_mode.count(transportModel) ? CK_Mode : 0;
         tr->init(phase, mode);
     }
     phase->restoreState(state);
-- 
2.43.0


From 0962d27ad61aebd07250049bcd4b1a29b2183c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:02 +0000
Subject: [PATCH 110/127] fix: unbalanced species locks after failure to
 replace reactor contents

---
 src/zeroD/ReactorBase.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zeroD/ReactorBase.cpp b/src/zeroD/ReactorBase.cpp
index 6fa0a13..c8f4c43 100644
--- a/src/zeroD/ReactorBase.cpp
+++ b/src/zeroD/ReactorBase.cpp
@@ -63,16 +63,16 @@ void ReactorBase::setSolution(shared_ptr<Solution> sol)
         throw CanteraError("ReactorBase::setSolution",
             "Missing or incomplete Solution object.");
     }
-    if (m_solution) {
-        m_solution->thermo()->removeSpeciesLock();
-    }
-    m_solution = sol;
     setThermo(*sol->thermo());
     try {
         setKinetics(*sol->kinetics());
     } catch (NotImplementedError&) {
         // kinetics not used (example: Reservoir)
     }
+    if (m_solution) {
+        m_solution->thermo()->removeSpeciesLock();
+    }
+    m_solution = sol;
     m_solution->thermo()->addSpeciesLock();
 }
 
-- 
2.43.0


From ef34927ee3b5a0b3e5ff858ea07fccfb23519c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:02 +0000
Subject: [PATCH 111/127] fix: unbalanced species lock after slicing
 SolutionArray with invalid indices

---
 src/base/SolutionArray.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/SolutionArray.cpp b/src/base/SolutionArray.cpp
index 769fce1..3d9553c 100644
--- a/src/base/SolutionArray.cpp
+++ b/src/base/SolutionArray.cpp
@@ -74,7 +74,6 @@ SolutionArray::SolutionArray(const SolutionArray& other,
     , m_order(other.m_order)
     , m_shared(true)
 {
-    m_sol->thermo()->addSpeciesLock();
     if (!other.m_shared) {
         // direct slicing is possible
         m_active = selected;
@@ -88,13 +87,15 @@ SolutionArray::SolutionArray(const SolutionArray& other,
     }
     for (auto loc : m_active) {
         if (loc < 0 || loc >= (int)m_dataSize) {
-            IndexError("SolutionArray::SolutionArray", "indices", loc, m_dataSize);
+            throw IndexError("SolutionArray::SolutionArray", "indices", loc,
+                             m_dataSize);
         }
     }
     set<int> unique(selected.begin(), selected.end());
     if (unique.size() < selected.size()) {
         throw CanteraError("SolutionArray::SolutionArray", "Indices must be unique.");
     }
+    m_sol->thermo()->addSpeciesLock();
 }
 
 SolutionArray::~SolutionArray()
-- 
2.43.0


From 03f52c730aa5584526b5bd9f92ae5bd2c3d1417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:22 +0000
Subject: [PATCH 112/127] fix: ReactorSurface aborted for invalid kinetics, and
 did not lock its species

---
 include/cantera/zeroD/ReactorSurface.h |  3 +-
 interfaces/cython/cantera/reactor.pxd  |  4 +--
 interfaces/cython/cantera/reactor.pyx  |  2 +-
 src/zeroD/ReactorSurface.cpp           | 41 +++++++++++++++++++-------
 4 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/include/cantera/zeroD/ReactorSurface.h b/include/cantera/zeroD/ReactorSurface.h
index d8acc8d..5d078e3 100644
--- a/include/cantera/zeroD/ReactorSurface.h
+++ b/include/cantera/zeroD/ReactorSurface.h
@@ -20,7 +20,7 @@ class ReactorSurface
 {
 public:
     ReactorSurface(const string& name="(none)") : m_name(name) {}
-    virtual ~ReactorSurface() = default;
+    virtual ~ReactorSurface();
     ReactorSurface(const ReactorSurface&) = delete;
     ReactorSurface& operator=(const ReactorSurface&) = delete;
 
@@ -109,6 +109,7 @@ protected:
 
     double m_area = 1.0;
 
+    shared_ptr<ThermoPhase> m_phase; //!< Surface phase, with its species locked
     SurfPhase* m_thermo = nullptr;
     Kinetics* m_kinetics = nullptr;
     ReactorBase* m_reactor = nullptr;
diff --git a/interfaces/cython/cantera/reactor.pxd b/interfaces/cython/cantera/reactor.pxd
index 3db4274..80dba08 100644
--- a/interfaces/cython/cantera/reactor.pxd
+++ b/interfaces/cython/cantera/reactor.pxd
@@ -90,10 +90,10 @@ cdef extern from "cantera/zerodim.h" namespace "Cantera":
         void setName(string) except +translate_exception
         double area()
         void setArea(double)
-        void setKinetics(CxxKinetics*)
+        void setKinetics(CxxKinetics*) except +translate_exception
         void setCoverages(double*)
         void setCoverages(Composition&) except +translate_exception
-        void syncState()
+        void syncState() except +translate_exception
         void addSensitivityReaction(size_t) except +translate_exception
         size_t nSensParams()
 
diff --git a/interfaces/cython/cantera/reactor.pyx b/interfaces/cython/cantera/reactor.pyx
index 84c381d..2dcbc9b 100644
--- a/interfaces/cython/cantera/reactor.pyx
+++ b/interfaces/cython/cantera/reactor.pyx
@@ -852,8 +852,8 @@ cdef class ReactorSurface:
             self.surface.syncState()
             return self._kinetics
         def __set__(self, Kinetics k):
+            self.surface.setKinetics(k.kinetics if k is not None else NULL)
             self._kinetics = k
-            self.surface.setKinetics(self._kinetics.kinetics)
 
     property coverages:
         """
diff --git a/src/zeroD/ReactorSurface.cpp b/src/zeroD/ReactorSurface.cpp
index b165b72..8c23bbd 100644
--- a/src/zeroD/ReactorSurface.cpp
+++ b/src/zeroD/ReactorSurface.cpp
@@ -35,18 +35,34 @@ void ReactorSurface::setArea(double a)
     m_area = a;
 }
 
-void ReactorSurface::setKinetics(Kinetics* kin) {
-    m_kinetics = kin;
-    if (kin == nullptr) {
-        m_thermo = nullptr;
-        return;
+ReactorSurface::~ReactorSurface()
+{
+    if (m_phase) {
+        m_phase->removeSpeciesLock();
     }
+}
 
-    m_thermo = dynamic_cast<SurfPhase*>(&kin->thermo(0));
+void ReactorSurface::setKinetics(Kinetics* kin) {
+    shared_ptr<ThermoPhase> phase;
+    SurfPhase* surf = nullptr;
+    if (kin != nullptr) {
+        phase = kin->nPhases() ? kin->phase(0) : nullptr;
+        surf = dynamic_cast<SurfPhase*>(phase.get());
+        if (surf == nullptr) {
+            throw CanteraError("ReactorSurface::setKinetics",
+                "Specified kinetics manager does not represent a surface "
+                "kinetics mechanism.");
+        }
+        phase->addSpeciesLock();
+    }
+    if (m_phase) {
+        m_phase->removeSpeciesLock();
+    }
+    m_phase = phase;
+    m_kinetics = kin;
+    m_thermo = surf;
     if (m_thermo == nullptr) {
-        throw CanteraError("ReactorSurface::setKinetics",
-            "Specified kinetics manager does not represent a surface "
-            "kinetics mechanism.");
+        return;
     }
     m_cov.resize(m_thermo->nSpecies());
     m_thermo->getCoverages(m_cov.data());
@@ -81,7 +97,12 @@ void ReactorSurface::getCoverages(double* cov) const
 
 void ReactorSurface::syncState()
 {
-    m_thermo->setTemperature(m_reactor->temperature());
+    if (!m_thermo) {
+        return;
+    }
+    if (m_reactor) {
+        m_thermo->setTemperature(m_reactor->temperature());
+    }
     m_thermo->setCoveragesNoNorm(m_cov.data());
 }
 
-- 
2.43.0


From 8e3dce22312549e10f94977ab0aefffe0c684766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:23 +0000
Subject: [PATCH 113/127] fix: phases of a Mixture could be deleted before it
 by the garbage collector

---
 interfaces/cython/cantera/mixture.pxd | 2 +-
 interfaces/cython/cantera/mixture.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/cython/cantera/mixture.pxd b/interfaces/cython/cantera/mixture.pxd
index 1521947..4234dfc 100644
--- a/interfaces/cython/cantera/mixture.pxd
+++ b/interfaces/cython/cantera/mixture.pxd
@@ -10,7 +10,7 @@ cdef extern from "cantera/equil/MultiPhase.h" namespace "Cantera":
     cdef cppclass CxxThermoPhase "Cantera::ThermoPhase"
     cdef cppclass CxxMultiPhase "Cantera::MultiPhase":
         CxxMultiPhase()
-        void addPhase(CxxThermoPhase*, double) except +translate_exception
+        void addPhase(shared_ptr[CxxThermoPhase], double) except +translate_exception
         void init() except +translate_exception
         void updatePhases() except +translate_exception
 
diff --git a/interfaces/cython/cantera/mixture.pyx b/interfaces/cython/cantera/mixture.pyx
index 74985b0..688c955 100644
--- a/interfaces/cython/cantera/mixture.pyx
+++ b/interfaces/cython/cantera/mixture.pyx
@@ -58,7 +58,7 @@ cdef class Mixture:
 
         for phase,moles in phases:
             # Block species from being added to the phase as long as this object exists
-            self.mix.addPhase(phase.thermo, moles)
+            self.mix.addPhase(phase.base.thermo(), moles)
             self._phases.append(phase)
 
         self.mix.init()
-- 
2.43.0


From 00cc66a68ebf02267aba42aa5ae9f7cc6479245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:23 +0000
Subject: [PATCH 114/127] fix: species could be added to phases adjacent to an
 interface

---
 include/cantera/kinetics/Kinetics.h |  2 +-
 src/kinetics/Kinetics.cpp           | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/cantera/kinetics/Kinetics.h b/include/cantera/kinetics/Kinetics.h
index 596251f..750dafc 100644
--- a/include/cantera/kinetics/Kinetics.h
+++ b/include/cantera/kinetics/Kinetics.h
@@ -130,7 +130,7 @@ public:
     //! Default constructor.
     Kinetics() = default;
 
-    virtual ~Kinetics() = default;
+    virtual ~Kinetics();
 
     //! Kinetics objects are not copyable or assignable
     Kinetics(const Kinetics&) = delete;
diff --git a/src/kinetics/Kinetics.cpp b/src/kinetics/Kinetics.cpp
index 2493e35..23a0927 100644
--- a/src/kinetics/Kinetics.cpp
+++ b/src/kinetics/Kinetics.cpp
@@ -24,6 +24,13 @@ using namespace std;
 namespace Cantera
 {
 
+Kinetics::~Kinetics()
+{
+    for (size_t i = 1; i < m_thermo.size(); i++) {
+        m_thermo[i]->removeSpeciesLock();
+    }
+}
+
 void Kinetics::checkReactionIndex(size_t i) const
 {
     if (i >= nReactions()) {
@@ -576,6 +583,10 @@ void Kinetics::addThermo(shared_ptr<ThermoPhase> thermo)
         m_mindim = thermo->nDim();
     }
 
+    if (!m_thermo.empty()) {
+        // The number of species of phases other than the reacting phase is fixed
+        thermo->addSpeciesLock();
+    }
     m_thermo.push_back(thermo);
     m_phaseindex[m_thermo.back()->name()] = nPhases();
     resizeSpecies();
-- 
2.43.0


From 1c8f2e00944a2b44de8ded30f6dffc711e81be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 115/127] fix: null elements of lists in YAML files were read
 as zero

---
 src/base/AnyMap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/AnyMap.cpp b/src/base/AnyMap.cpp
index 197a056..f6600f8 100644
--- a/src/base/AnyMap.cpp
+++ b/src/base/AnyMap.cpp
@@ -135,7 +135,8 @@ enum class Type : char {
     String = 4,
     Bool = 8,
     Map = 16,
-    Sequence = 32
+    Sequence = 32,
+    Null = 64
 };
 
 // Map items of type `Exclude` are skipped in any iteration / output
@@ -172,6 +173,8 @@ Type elementTypes(const YAML::Node& node)
             } else {
                 types = types | Type::String;
             }
+        } else if (el.IsNull()) {
+            types = types | Type::Null;
         }
     }
     return types;
-- 
2.43.0


From af1ee843e9fb2fc4a2c645d8b8ba3b9bbb999f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 116/127] fix: sticking species not among the reactants was
 silently ignored

---
 src/kinetics/InterfaceRate.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kinetics/InterfaceRate.cpp b/src/kinetics/InterfaceRate.cpp
index 6c6ac78..0017169 100644
--- a/src/kinetics/InterfaceRate.cpp
+++ b/src/kinetics/InterfaceRate.cpp
@@ -385,6 +385,13 @@ void StickingCoverage::setContext(const Reaction& rxn, const Kinetics& kin)
                 fmt::format("'{}'", fmt::join(anySpecies, "', '")), rxn.equation());
         }
     }
+    if (!rxn.reactants.count(sticking_species)
+        || kin.speciesPhaseIndex(kin.kineticsSpeciesIndex(sticking_species)) == 0)
+    {
+        throw InputFileError("StickingCoverage::setContext", rxn.input,
+            "Sticking species '{}' is not a non-interface reactant of\n"
+            "sticking reaction: '{}'", sticking_species, rxn.equation());
+    }
     m_stickingSpecies = sticking_species;
 
     double surface_order = 0.0;
-- 
2.43.0


From 587957743155280c8bff16d0b992ff4dbfba316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 117/127] fix: temperature ranges of species thermo in the
 wrong order were accepted

---
 src/thermo/SpeciesThermoFactory.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/thermo/SpeciesThermoFactory.cpp b/src/thermo/SpeciesThermoFactory.cpp
index 600021f..29bf558 100644
--- a/src/thermo/SpeciesThermoFactory.cpp
+++ b/src/thermo/SpeciesThermoFactory.cpp
@@ -85,10 +85,23 @@ void setupSpeciesThermo(SpeciesThermoInterpType& thermo,
     thermo.input() = node;
 }
 
+//! Get the boundaries of the temperature ranges of a piecewise parameterization
+vector<double> getTemperatureRanges(const AnyMap& node, size_t minSize, size_t maxSize)
+{
+    auto Tranges = node.convertVector("temperature-ranges", "K", minSize, maxSize);
+    for (size_t i = 1; i < Tranges.size(); i++) {
+        if (!(Tranges[i] >= Tranges[i-1])) {
+            throw InputFileError("getTemperatureRanges", node["temperature-ranges"],
+                "Boundaries of temperature ranges must not decrease");
+        }
+    }
+    return Tranges;
+}
+
 void setupNasaPoly(NasaPoly2& thermo, const AnyMap& node)
 {
     setupSpeciesThermo(thermo, node);
-    vector<double> Tranges = node.convertVector("temperature-ranges", "K", 2, 3);
+    vector<double> Tranges = getTemperatureRanges(node, 2, 3);
     const auto& data = node["data"].asVector<vector<double>>(Tranges.size()-1);
     for (const auto& poly : data) {
         if (poly.size() != 7) {
@@ -108,7 +121,7 @@ void setupNasaPoly(NasaPoly2& thermo, const AnyMap& node)
 void setupShomatePoly(ShomatePoly2& thermo, const AnyMap& node)
 {
     setupSpeciesThermo(thermo, node);
-    vector<double> Tranges = node.convertVector("temperature-ranges", "K", 2, 3);
+    vector<double> Tranges = getTemperatureRanges(node, 2, 3);
     const auto& data = node["data"].asVector<vector<double>>(Tranges.size()-1);
     for (const auto& poly : data) {
         if (poly.size() != 7) {
@@ -144,7 +157,7 @@ void setupConstCp(ConstCpPoly& thermo, const AnyMap& node)
 void setupNasa9Poly(Nasa9PolyMultiTempRegion& thermo, const AnyMap& node)
 {
     setupSpeciesThermo(thermo, node);
-    vector<double> Tranges = node.convertVector("temperature-ranges", "K", 2, 999);
+    vector<double> Tranges = getTemperatureRanges(node, 2, 999);
     const auto& data = node["data"].asVector<vector<double>>(Tranges.size()-1);
     map<double, vector<double>> regions;
     for (size_t i = 0; i < data.size(); i++) {
-- 
2.43.0


From 635cbf8d03a7ad507e7263bb2072290d52e86abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 118/127] fix: crash for empty maps in lists of input file
 sections

---
 src/base/Solution.cpp            | 4 ++++
 src/kinetics/KineticsFactory.cpp | 4 ++++
 src/thermo/ThermoFactory.cpp     | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/src/base/Solution.cpp b/src/base/Solution.cpp
index c3368cc..eb47cfd 100644
--- a/src/base/Solution.cpp
+++ b/src/base/Solution.cpp
@@ -289,6 +289,10 @@ shared_ptr<Solution> newSolution(const AnyMap& phaseNode,
             // a section in this file or another YAML file, and the value is a list of
             // phase names to read from that section
             for (auto& item : adjPhases.asVector<AnyMap>()) {
+                if (item.empty()) {
+                    throw InputFileError("newSolution", adjPhases,
+                        "Item of adjacent phases declaration is an empty map");
+                }
                 const string& source = item.begin()->first;
                 const auto& names = item.begin()->second.asVector<string>();
                 const auto& slash = boost::ifind_last(source, "/");
diff --git a/src/kinetics/KineticsFactory.cpp b/src/kinetics/KineticsFactory.cpp
index 585a131..c87a492 100644
--- a/src/kinetics/KineticsFactory.cpp
+++ b/src/kinetics/KineticsFactory.cpp
@@ -139,6 +139,10 @@ void addReactions(Kinetics& kin, const AnyMap& phaseNode, const AnyMap& rootNode
             // Mapping of rules to apply for each specified section containing
             // reactions
             for (const auto& item : reactionsNode.as<vector<AnyMap>>()) {
+                if (item.empty()) {
+                    throw InputFileError("addReactions", reactionsNode,
+                        "Item of reactions declaration is an empty map");
+                }
                 sections.push_back(item.begin()->first);
                 rules.push_back(item.begin()->second.asString());
             }
diff --git a/src/thermo/ThermoFactory.cpp b/src/thermo/ThermoFactory.cpp
index 176b749..09beb07 100644
--- a/src/thermo/ThermoFactory.cpp
+++ b/src/thermo/ThermoFactory.cpp
@@ -243,6 +243,10 @@ void setupPhase(ThermoPhase& thermo, const AnyMap& phaseNode, const AnyMap& root
             // a section in this file or another YAML file, and the value is a
             // list of element symbols to read from that section
             for (const auto& elemNode : phaseNode["elements"].asVector<AnyMap>()) {
+                if (elemNode.empty()) {
+                    throw InputFileError("setupPhase", phaseNode["elements"],
+                        "Item of elements declaration is an empty map");
+                }
                 const string& source = elemNode.begin()->first;
                 const auto& names = elemNode.begin()->second.asVector<string>();
                 const auto& slash = boost::ifind_last(source, "/");
@@ -287,6 +291,10 @@ void setupPhase(ThermoPhase& thermo, const AnyMap& phaseNode, const AnyMap& root
             // a section in this file or another YAML file, and the value is a
             // list of species names to read from that section
             for (const auto& speciesNode : phaseNode["species"].asVector<AnyMap>()) {
+                if (speciesNode.empty()) {
+                    throw InputFileError("setupPhase", phaseNode["species"],
+                        "Item of species declaration is an empty map");
+                }
                 const string& source = speciesNode.begin()->first;
                 const auto& names = speciesNode.begin()->second;
                 const auto& slash = boost::ifind_last(source, "/");
-- 
2.43.0


From 258efc17fbdf2c0042c03df4c41a0b670dd38de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 119/127] fix: crash for linear-Burke rate without colliders

---
 src/kinetics/LinearBurkeRate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kinetics/LinearBurkeRate.cpp b/src/kinetics/LinearBurkeRate.cpp
index a7328b0..935cfd1 100644
--- a/src/kinetics/LinearBurkeRate.cpp
+++ b/src/kinetics/LinearBurkeRate.cpp
@@ -69,7 +69,10 @@ void LinearBurkeRate::setParameters(const AnyMap& node, const UnitStack& rate_un
             "'colliders' key missing");
     }
     auto colliders = node["colliders"].asVector<AnyMap>();
-    if (!colliders[0].hasKey("name")) {
+    if (colliders.empty()) {
+        throw InputFileError("LinearBurkeRate::setParameters", node["colliders"],
+            "At least the collider 'M' must be specified.");
+    } else if (!colliders[0].hasKey("name")) {
         throw InputFileError("LinearBurkeRate::setParameters", colliders[0],
             "'name' key missing from collider entry");
     } else if (colliders[0]["name"].asString() != "M") {
-- 
2.43.0


From af5e99859b5761352237a06b062f44038ab5de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 120/127] fix: out-of-bounds write for beta coefficients in
 other Debye-Huckel models

---
 src/thermo/DebyeHuckel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thermo/DebyeHuckel.cpp b/src/thermo/DebyeHuckel.cpp
index c96d9fc..646ca3c 100644
--- a/src/thermo/DebyeHuckel.cpp
+++ b/src/thermo/DebyeHuckel.cpp
@@ -313,6 +313,10 @@ void DebyeHuckel::setDefaultIonicRadius(double value)
 
 void DebyeHuckel::setBeta(const string& sp1, const string& sp2, double value)
 {
+    if (m_formDH != DHFORM_BETAIJ && m_formDH != DHFORM_PITZER_BETAIJ) {
+        throw CanteraError("DebyeHuckel::setBeta",
+                           "beta entry in the wrong DH form");
+    }
     size_t k1 = speciesIndex(sp1);
     if (k1 == npos) {
         throw CanteraError("DebyeHuckel::setBeta", "Species '{}' not found", sp1);
-- 
2.43.0


From 9f724fb166c6f0563a154ede9c2c02c9628f0eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 121/127] fix: crash for phase models requiring a species when
 there is none

---
 src/thermo/MolalityVPSSTP.cpp | 4 ++++
 src/thermo/PureFluidPhase.cpp | 4 ++++
 src/thermo/WaterSSTP.cpp      | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/thermo/MolalityVPSSTP.cpp b/src/thermo/MolalityVPSSTP.cpp
index b232ecb..d911490 100644
--- a/src/thermo/MolalityVPSSTP.cpp
+++ b/src/thermo/MolalityVPSSTP.cpp
@@ -269,6 +269,10 @@ void MolalityVPSSTP::setState(const AnyMap& state) {
 void MolalityVPSSTP::initThermo()
 {
     VPStandardStateTP::initThermo();
+    if (m_kk == 0) {
+        throw CanteraError("MolalityVPSSTP::initThermo",
+            "Phase '{}' does not contain a solvent species", name());
+    }
 
     // Find the Cl- species
     m_indexCLM = findCLMIndex();
diff --git a/src/thermo/PureFluidPhase.cpp b/src/thermo/PureFluidPhase.cpp
index b6e5704..7f32c6c 100644
--- a/src/thermo/PureFluidPhase.cpp
+++ b/src/thermo/PureFluidPhase.cpp
@@ -20,6 +20,10 @@ namespace Cantera
 
 void PureFluidPhase::initThermo()
 {
+    if (m_kk == 0) {
+        throw CanteraError("PureFluidPhase::initThermo",
+            "Phase '{}' does not contain a species", name());
+    }
     if (m_input.hasKey("pure-fluid-name")) {
         setSubstance(m_input["pure-fluid-name"].asString());
     }
diff --git a/src/thermo/WaterSSTP.cpp b/src/thermo/WaterSSTP.cpp
index cf8f09c..dbe27e0 100644
--- a/src/thermo/WaterSSTP.cpp
+++ b/src/thermo/WaterSSTP.cpp
@@ -28,6 +28,10 @@ string WaterSSTP::phaseOfMatter() const {
 void WaterSSTP::initThermo()
 {
     SingleSpeciesTP::initThermo();
+    if (m_kk == 0) {
+        throw CanteraError("WaterSSTP::initThermo",
+            "Phase '{}' does not contain a species", name());
+    }
 
     // Calculate the molecular weight. Note while there may be a very good
     // calculated weight in the steam table class, using this weight may lead to
-- 
2.43.0


From 03c71000328433af03a1cfc3e5a5eee26a979443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 122/127] fix: undescribed error for HKFT species in phase
 without water

---
 src/thermo/PDSS_HKFT.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thermo/PDSS_HKFT.cpp b/src/thermo/PDSS_HKFT.cpp
index 7df92c9..39f17c1 100644
--- a/src/thermo/PDSS_HKFT.cpp
+++ b/src/thermo/PDSS_HKFT.cpp
@@ -254,7 +254,11 @@ void PDSS_HKFT::initThermo()
         m_Entrop_tr_pr = m_units.convertFrom((DHjmol - m_Mu0_tr_pr) / 298.15, "J/kmol");
     }
 
-    m_waterSS = &dynamic_cast<PDSS_Water&>(*m_tp->providePDSS(0));
+    m_waterSS = dynamic_cast<PDSS_Water*>(m_tp->providePDSS(0));
+    if (!m_waterSS) {
+        throw CanteraError("PDSS_HKFT::initThermo",
+            "First species of the phase must use the 'liquid-water-IAPWS95' model");
+    }
 
     // Section to initialize m_Z_pr_tr and m_Y_pr_tr
     m_temp = 273.15 + 25.;
-- 
2.43.0


From 222bc3565b9a016e91e707c950a26ceac1d043f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:12 +0000
Subject: [PATCH 123/127] fix: rates of user-defined types not evaluated after
 errors or new reactions

---
 include/cantera/kinetics/ReactionRateDelegator.h | 10 ++++++++++
 src/kinetics/ReactionRateDelegator.cpp           |  4 +++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/cantera/kinetics/ReactionRateDelegator.h b/include/cantera/kinetics/ReactionRateDelegator.h
index 5dfe404..f4f857a 100644
--- a/include/cantera/kinetics/ReactionRateDelegator.h
+++ b/include/cantera/kinetics/ReactionRateDelegator.h
@@ -30,6 +30,13 @@ public:
 
     using ReactionData::update;
 
+    //! Ensures that rates are evaluated after the next call to update(), also if the
+    //! delegated method does not detect a change of the state.
+    void invalidateCache() override {
+        ReactionData::invalidateCache();
+        m_force = true;
+    }
+
     //! Set the type of the ReactionData class. This should match the corresponding
     //! ReactionRate class's type
     void setType(const string& name) {
@@ -57,6 +64,9 @@ protected:
     //! An external language's wrapper for this ReactionData object
     shared_ptr<ExternalHandle> m_wrappedData;
 
+    //! Rates need to be evaluated independent of changes of the state
+    bool m_force = true;
+
     //! Delegated `update` method taking the Solution wrapper as its argument
     function<double(void*)> m_update;
 };
diff --git a/src/kinetics/ReactionRateDelegator.cpp b/src/kinetics/ReactionRateDelegator.cpp
index 17a4fdb..25cfdaf 100644
--- a/src/kinetics/ReactionRateDelegator.cpp
+++ b/src/kinetics/ReactionRateDelegator.cpp
@@ -37,7 +37,9 @@ bool ReactionDataDelegator::update(const ThermoPhase& phase, const Kinetics& kin
         }
     }
     double needsUpdate = m_update(m_wrappedSolution->get());
-    return needsUpdate != 0.0;
+    bool force = m_force;
+    m_force = false;
+    return needsUpdate != 0.0 || force;
 }
 
 ReactionRateDelegator::ReactionRateDelegator()
-- 
2.43.0


From 51b7eee7d1f5c8d061d45f5933a14a6edc6c2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:32 +0000
Subject: [PATCH 124/127] fix: non-ASCII messages of exceptions in Python
 callbacks

---
 include/cantera/cython/funcWrapper.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cantera/cython/funcWrapper.h b/include/cantera/cython/funcWrapper.h
index 66de857..d446a47 100644
--- a/include/cantera/cython/funcWrapper.h
+++ b/include/cantera/cython/funcWrapper.h
@@ -104,8 +104,10 @@ public:
         PyObject* name = PyObject_GetAttrString(m_type, "__name__");
         PyObject* value_str = PyObject_Str(m_value);
 
-        PyObject* name_bytes = PyUnicode_AsASCIIString(name);
-        PyObject* value_bytes = PyUnicode_AsASCIIString(value_str);
+        PyObject* name_bytes = name ?
+            PyUnicode_AsEncodedString(name, "utf-8", "replace") : nullptr;
+        PyObject* value_bytes = value_str ?
+            PyUnicode_AsEncodedString(value_str, "utf-8", "replace") : nullptr;
 
         if (name_bytes) {
             msg += PyBytes_AsString(name_bytes);
@@ -125,6 +127,8 @@ public:
 
         Py_XDECREF(name);
         Py_XDECREF(value_str);
+        // Failures to describe the exception are handled above
+        PyErr_Clear();
         return msg;
     }
 
-- 
2.43.0


From 18157bb68087d55a43bf3efcd3b9bdf9f927a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:46 +0000
Subject: [PATCH 125/127] fix: data race on the date written by YamlWriter

---
 src/base/YamlWriter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/base/YamlWriter.cpp b/src/base/YamlWriter.cpp
index fb65320..da82837 100644
--- a/src/base/YamlWriter.cpp
+++ b/src/base/YamlWriter.cpp
@@ -63,7 +63,15 @@ string YamlWriter::toYamlString() const
     output["cantera-version"] = CANTERA_VERSION;
     output["git-commit"] = gitCommit();
     time_t now = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
-    output["date"] = trimCopy(std::ctime(&now));
+    std::tm local; // std::ctime uses a buffer shared by all threads
+    #ifdef _WIN32
+        localtime_s(&local, &now);
+    #else
+        localtime_r(&now, &local);
+    #endif
+    char date[64];
+    std::strftime(date, sizeof(date), "%a %b %e %H:%M:%S %Y", &local);
+    output["date"] = string(date);
     if (hasDescription) {
         output["description"].setLoc(-6, 0);
     }
-- 
2.43.0


From b355f70f456162da96ccdbce2518b125879a6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:46 +0000
Subject: [PATCH 126/127] fix: reactions declaration of wrong type was silently
 ignored

---
 src/kinetics/KineticsFactory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics/KineticsFactory.cpp b/src/kinetics/KineticsFactory.cpp
index c87a492..5d6ad01 100644
--- a/src/kinetics/KineticsFactory.cpp
+++ b/src/kinetics/KineticsFactory.cpp
@@ -146,6 +146,11 @@ void addReactions(Kinetics& kin, const AnyMap& phaseNode, const AnyMap& rootNode
                 sections.push_back(item.begin()->first);
                 rules.push_back(item.begin()->second.asString());
             }
+        } else if (!reactionsNode.is<vector<AnyValue>>() ||
+                   !reactionsNode.asVector<AnyValue>().empty()) {
+            throw InputFileError("addReactions", reactionsNode,
+                "Could not parse reactions declaration of type '{}'",
+                reactionsNode.type_str());
         }
     } else if (kin.kineticsType() != "none") {
         if (!phaseNode.hasKey("kinetics")) {
-- 
2.43.0


From 0de0cf547687bac543b4f41894f9e4b7a1f908d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:46 +0000
Subject: [PATCH 127/127] fix: molalities of wrong type in state were silently
 ignored

---
 src/thermo/MolalityVPSSTP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermo/MolalityVPSSTP.cpp b/src/thermo/MolalityVPSSTP.cpp
index d911490..aa847ff 100644
--- a/src/thermo/MolalityVPSSTP.cpp
+++ b/src/thermo/MolalityVPSSTP.cpp
@@ -259,7 +259,7 @@ void MolalityVPSSTP::setState(const AnyMap& state) {
 
     if (molalities.is<string>()) {
         setMolalitiesByName(molalities.asString());
-    } else if (molalities.is<AnyMap>()) {
+    } else if (state.hasKey("molalities") || state.hasKey("M")) {
         setMolalitiesByName(molalities.asMap<double>());
     }
 
-- 
2.43.0

