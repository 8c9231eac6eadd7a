From 91f59af35c2098a7ff89fc37a0ced7193a518f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 01/34] fix: CholeskyLdu::Decompose dropped products with a
 positive off-diagonal term

The 'skip operations on zero' test only kept a product when both factors were
negative, so the factorization of a positive definite matrix with positive
off-diagonal terms was wrong.  Skip only when a factor is (nearly) zero.
---
 ms-utils/math/linear_algebra/CholeskyLdu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ms-utils/math/linear_algebra/CholeskyLdu.cpp b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
index 46bb1ca..f245657 100644
--- a/ms-utils/math/linear_algebra/CholeskyLdu.cpp
+++ b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
@@ -79,7 +79,7 @@ void CholeskyLdu::Decompose(double *A, int n)
             const double limit = -1.0E-100;
             for (int k = 0; k < j; k++) {
                 /// - Skip operations on zero to save time.
-                if (limit > *(p_i + k) and limit > *(p_j + k)) {
+                if (std::fabs(*(p_i + k)) > -limit and std::fabs(*(p_j + k)) > -limit) {
                     *(p_i + j) -= *(p_i + k) * *(p_j + k);
                 }
             }
@@ -158,7 +158,7 @@ void CholeskyLdu::Decompose(double *A, int n, std::vector<int>& r)
             double *p_j_k = p_j;
             for (int k = 0; k < j; k++, p_i_k += vrk[k], p_j_k += vrk[k]) {
                 /// - Skip operations on zero to save time.
-                if (limit > *(p_i_k) and limit > *(p_j_k)) {
+                if (std::fabs(*(p_i_k)) > -limit and std::fabs(*(p_j_k)) > -limit) {
                     *(p_i_j) -= *(p_i_k) * *(p_j_k);
                 }
             }
-- 
2.43.0


From b93b04da53b402d2bfa9dae80a8e1d8b66b60170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 02/34] fix: CholeskyLdu::Decompose did not check the first
 diagonal element

A first diagonal element that is zero or negative went undetected: a zero one
was divided by and gave NaNs instead of the documented exception.
---
 ms-utils/math/linear_algebra/CholeskyLdu.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ms-utils/math/linear_algebra/CholeskyLdu.cpp b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
index f245657..8a6a15c 100644
--- a/ms-utils/math/linear_algebra/CholeskyLdu.cpp
+++ b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
@@ -70,6 +70,11 @@ void CholeskyLdu::Decompose(double *A, int n)
 //    }
 //    printf("          \n");
 
+    /// - The matrix isn't positive definite if the first diagonal isn't positive.
+    if (n > 0 and *A <= 0.0) {
+        throw(TsNumericalException("", "CholeskyLdu::Decompose", "failed at row 0"));
+    }
+
     double *p_i = A + n;                   // pointer to L[i][0]
     for (int i = 1; i < n; p_i += n, i++) {
 
@@ -134,6 +139,12 @@ void CholeskyLdu::Decompose(double *A, int n)
 void CholeskyLdu::Decompose(double *A, int n, std::vector<int>& r)
 {
     const int rn = static_cast<int>(r.size());
+
+    /// - The matrix isn't positive definite if the first diagonal isn't positive.
+    if (rn > 0 and *(A + n*r[0] + r[0]) <= 0.0) {
+        throw(TsNumericalException("", "CholeskyLdu::Decompose", "failed at row 0"));
+    }
+
     // create vectors that contain the increments between rows in r.  Tried actual std::vectors,
     // but they're slower to reference than arrays.  This method runs faster with arrays.
     int* vri = new int[rn];
-- 
2.43.0


From 838d4a1baf3336ccea06109e236b168658fd6008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 03/34] fix: link restart did not return ports to their default
 nodes when they had swapped nodes

---
 core/GunnsBasicLink.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/GunnsBasicLink.cpp b/core/GunnsBasicLink.cpp
index b83f21b..dccc79a 100755
--- a/core/GunnsBasicLink.cpp
+++ b/core/GunnsBasicLink.cpp
@@ -291,6 +291,17 @@ void GunnsBasicLink::initialize(const GunnsBasicLinkConfigData& configData,
 void GunnsBasicLink::restart()
 {
     initializeRestartCommonFunctions();
+
+    /// - Take all moved ports off their nodes first, so that no port blocks another from returning to
+    ///   its default node.
+    if (not mNodeMapLocked) {
+        for (int port = 0; port < mNumPorts; ++port) {
+            if (mNodeMap[port] != mDefaultNodeMap[port]) {
+                mNodeMap[port]    = getGroundNodeIndex();
+                mAdmittanceUpdate = true;
+            }
+        }
+    }
     registerNodes(mDefaultNodeMap, "restart", true);
     restartModel();
 }
-- 
2.43.0


From c971c24f054d25e7d218489cb87c9bd04b8f3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 04/34] fix: keep a network rebuild due until the built
 admittance matrix is decomposed

A matrix built but not decomposed (SOR, SLAVE or DUMMY mode, decomposition limit or
failed decomposition) was later solved as if it were a Cholesky decomposition.
---
 core/Gunns.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index a72e0c6..e8d4434 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -796,7 +796,6 @@ void Gunns::step(const double timeStep)
     ///   future.
     saveMajorPotentialVector();
 
-    mRebuild = false;
     mStepLog.endMajorStep();
 
     mSolveTime = mSolveTimeWorking;
@@ -966,7 +965,9 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
         buildAdmittanceMatrix();
         conditionAdmittanceMatrix();
         needDecomposition = true;
-        mRebuild = false;
+        /// - The built matrix replaces the last decomposition, so a rebuild remains due until this
+        ///   matrix is decomposed.
+        mRebuild = true;
     }
     mStepLog.recordLinkContributions();
 
@@ -1036,6 +1037,7 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
                     } else {
                         decompose(mAdmittanceMatrix, mNetworkSize);
                     }
+                    mRebuild = false;
                 } else {
                     throw TsOutOfBoundsException("Iteration Limit Exceeded", "Gunns",
                                                  "decomposition limit exceeded.");
-- 
2.43.0


From ee6ba19331e6e02a676535224915f333ecda953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 05/34] fix: mixing an outflow below DBL_EPSILON kg/s threw out
 of GunnsFluidNode::integrateFlows

---
 core/GunnsFluidNode.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/GunnsFluidNode.cpp b/core/GunnsFluidNode.cpp
index c74390c..0d48aee 100755
--- a/core/GunnsFluidNode.cpp
+++ b/core/GunnsFluidNode.cpp
@@ -553,9 +553,10 @@ void GunnsFluidNode::integrateFlows(const double dt)
         outFlowContent = contentOutMass / dt;
     }
 
-    /// - Save original mContent state for mixing with new mContent into mOutflow at the end.
+    /// - Save original mContent state for mixing with new mContent into mOutflow at the end.  The
+    ///   fluid class can't mix flow rates below DBL_EPSILON, so the outflow isn't mixed below that.
     mOutflow.resetState();
-    if (outFlowContent > 0.0) {
+    if (outFlowContent > DBL_EPSILON) {
         mOutflow.addState(&mContent, outFlowContent);
         mOutflow.setFlowRate(outFlowContent);
     }
@@ -749,9 +750,9 @@ void GunnsFluidNode::integrateFlows(const double dt)
 
     /// - Mix through flow of final contents to the outflow, and balance outflow properties.  If
     ///   there weren't any outflows, then set the outflow state to the new contents.
-    if (outFlowThru > 0.0) {
+    if (outFlowThru > DBL_EPSILON) {
         mOutflow.addState(&mContent, outFlowThru);
-    } else if (outFlowContent <= 0.0) {
+    } else if (outFlowContent <= DBL_EPSILON) {
         mOutflow.setState(&mContent);
     }
     mOutflow.setPressure(mContent.getPressure());
-- 
2.43.0


From 93a01292a1d621504242eddd34e07590a0645e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 06/34] fix: expansion scale factor tuned at equal pressures is
 not a number

predictExpansionScaleFactor compared the pressures with >= although its
comment says they are checked to be unequal: at equal pressures it
divided by zero, and for a zero temperature drop returned NaN, which then
is the expansion factor of the link for good.
---
 core/GunnsFluidUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/GunnsFluidUtils.cpp b/core/GunnsFluidUtils.cpp
index eb51e75..d98ad11 100755
--- a/core/GunnsFluidUtils.cpp
+++ b/core/GunnsFluidUtils.cpp
@@ -328,13 +328,13 @@ double GunnsFluidUtils::predictExpansionScaleFactor(const double     deltaTemper
     /// - Determine inlet fluid conditions and pressure ratio based on flow direction (pressure
     ///   gradient).  Divide by zero is protected by fluids never return zero adiabatic index
     ///   for a gas, and we check for pressures to be unequal before proceeding.
-    if (p0 >= p1 && fluid0->getPhase() == FluidProperties::GAS) {
+    if (p0 > p1 && fluid0->getPhase() == FluidProperties::GAS) {
         const double supplyT = fluid0->getTemperature();
         const double gamma   = fluid0->getAdiabaticIndex();
         tunedFactor = -std::fabs(deltaTemperature) /
                       (supplyT * (std::pow((p1/p0), (gamma - 1.0) / gamma) - 1.0));
     }
-    else if (p1 >= p0 && fluid1->getPhase() == FluidProperties::GAS) {
+    else if (p1 > p0 && fluid1->getPhase() == FluidProperties::GAS) {
         const double supplyT = fluid1->getTemperature();
         const double gamma   = fluid1->getAdiabaticIndex();
         tunedFactor = -std::fabs(deltaTemperature) /
-- 
2.43.0


From 992ba83039167285bd74b9b98f5728ce5493d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 07/34] fix: GunnsFluidSource removed a forced-mixture flow
 from its source node twice

---
 aspects/fluid/source/GunnsGasDisplacementPump.hh | 12 ++++++++++++
 core/GunnsFluidExternalSupply.hh                 | 13 +++++++++++++
 core/GunnsFluidSource.cpp                        | 11 ++++++++---
 core/GunnsFluidSource.hh                         | 15 +++++++++++++++
 4 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/aspects/fluid/source/GunnsGasDisplacementPump.hh b/aspects/fluid/source/GunnsGasDisplacementPump.hh
index 3a972ba..0b44981 100644
--- a/aspects/fluid/source/GunnsGasDisplacementPump.hh
+++ b/aspects/fluid/source/GunnsGasDisplacementPump.hh
@@ -164,6 +164,8 @@ class GunnsGasDisplacementPump : public GunnsFluidSource
         virtual void applyCavitation(const double dt);
         /// @brief    Transports flow between nodes specifying source node mixture option.
         virtual void transportFluidMixtureOption();
+        /// @brief    Returns whether the link forces its internal fluid out of the supplying node.
+        virtual bool isOutflowForced() const;
 
     private:
         ////////////////////////////////////////////////////////////////////////////////////////////
@@ -251,4 +253,14 @@ inline void GunnsGasDisplacementPump::transportFluidMixtureOption()
     transportFluid(false);
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @returns  bool (--) Always false, this moves the natural mixture of the supplying node.
+///
+/// @details  Agrees with the option in transportFluidMixtureOption.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+inline bool GunnsGasDisplacementPump::isOutflowForced() const
+{
+    return false;
+}
+
 #endif
diff --git a/core/GunnsFluidExternalSupply.hh b/core/GunnsFluidExternalSupply.hh
index bf06fdd..1c89a56 100755
--- a/core/GunnsFluidExternalSupply.hh
+++ b/core/GunnsFluidExternalSupply.hh
@@ -176,6 +176,9 @@ class GunnsFluidExternalSupply : public GunnsFluidSource
         /// @brief Virtual method for derived links to perform their restart functions.
         virtual void restartModel();
 
+        /// @brief Returns whether the link forces its internal fluid out of the supplying node.
+        virtual bool isOutflowForced() const;
+
         /// @brief Checks for valid implementation-specific port node assignment
         virtual bool checkSpecificPortRules(const int port, const int node) const;
 
@@ -189,4 +192,14 @@ class GunnsFluidExternalSupply : public GunnsFluidSource
 
 /// @}
 
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @returns  bool (--) Always false, this removes the natural mixture of the supplying node.
+///
+/// @details  Agrees with the option in transportFlows.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+inline bool GunnsFluidExternalSupply::isOutflowForced() const
+{
+    return false;
+}
+
 #endif
diff --git a/core/GunnsFluidSource.cpp b/core/GunnsFluidSource.cpp
index 4f44691..ba17a68 100755
--- a/core/GunnsFluidSource.cpp
+++ b/core/GunnsFluidSource.cpp
@@ -236,15 +236,20 @@ void GunnsFluidSource::computeFlows(const double dt __attribute__((unused)))
 {
     mPotentialDrop = getDeltaPotential();
 
-    /// - Set port flow directions and schedule flow from source nodes.
+    /// - Set port flow directions and schedule flow from source nodes.  A forced outflow isn't
+    ///   scheduled, because it is removed from the source node as a negative influx.
     if (mFlux > DBL_EPSILON) {
         mPortDirections[0] = SOURCE;
         mPortDirections[1] = SINK;
-        mNodes[0]->scheduleOutflux(mFlux);
+        if (not isOutflowForced()) {
+            mNodes[0]->scheduleOutflux(mFlux);
+        }
     } else if (mFlux < -DBL_EPSILON) {
         mPortDirections[0] = SINK;
         mPortDirections[1] = SOURCE;
-        mNodes[1]->scheduleOutflux(-mFlux);
+        if (not isOutflowForced()) {
+            mNodes[1]->scheduleOutflux(-mFlux);
+        }
     } else {
         mPortDirections[0] = NONE;
         mPortDirections[1] = NONE;
diff --git a/core/GunnsFluidSource.hh b/core/GunnsFluidSource.hh
index c34dcfb..db41e72 100755
--- a/core/GunnsFluidSource.hh
+++ b/core/GunnsFluidSource.hh
@@ -152,6 +152,9 @@ class GunnsFluidSource : public GunnsFluidLink
         /// @brief Transports flow between nodes specifying source node mixture option
         virtual void transportFluidMixtureOption();
 
+        /// @brief Returns whether the link forces its internal fluid out of the supplying node
+        virtual bool isOutflowForced() const;
+
     private:
         /// @details Define the number of ports this link class has.  All objects of the same link
         ///          class always have the same number of ports.  We use an enum rather than a
@@ -229,4 +232,16 @@ inline void GunnsFluidSource::transportFluidMixtureOption()
     transportFluid(true);
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @returns  bool (--) True when the flow out of the supplying node has the internal fluid's mixture.
+///
+/// @details  This must agree with the option that transportFluidMixtureOption transports with.  A
+///           forced outflow is removed from the supplying node as a negative influx of the internal
+///           fluid, so it must not be scheduled out of the node as well.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+inline bool GunnsFluidSource::isOutflowForced() const
+{
+    return 0 != mInternalFluid;
+}
+
 #endif
-- 
2.43.0


From b71ebce6718d79815e1ed4dfb40d9b18f027d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 08/34] fix: GunnsFluidSource converted a forced-mixture flow
 to mass with the node's molecular weight

---
 core/GunnsFluidSource.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/GunnsFluidSource.cpp b/core/GunnsFluidSource.cpp
index ba17a68..358643e 100755
--- a/core/GunnsFluidSource.cpp
+++ b/core/GunnsFluidSource.cpp
@@ -263,10 +263,15 @@ void GunnsFluidSource::computeFlows(const double dt __attribute__((unused)))
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidSource::transportFlows(const double dt)
 {
-    /// - Convert the molar flow rate to mass rate using the molecular weight of the source node.
+    /// - Convert the molar flow rate to mass rate using the molecular weight of the source node, or
+    ///   of the internal fluid when that is what flows, as in the step method.
     int    sourcePort    = determineSourcePort(mFlux, 0, 1);
     double sourceDensity =         mNodes[sourcePort]->getOutflow()->getDensity();
-    mFlowRate            = mFlux * mNodes[sourcePort]->getOutflow()->getMWeight();
+    double sourceMWeight =         mNodes[sourcePort]->getOutflow()->getMWeight();
+    if (isOutflowForced()) {
+        sourceMWeight    =         mInternalFluid->getMWeight();
+    }
+    mFlowRate            = mFlux * sourceMWeight;
 
     /// - Calculate true volumetric flow rate from the mass flow rate, using the density of the
     ///   source node.
-- 
2.43.0


From 4fc58836169ea9a9910a9eafca084fb3a6f8da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 09/34] fix: leak malfunction conductivity went stale when
 switching between hole and rate

---
 aspects/fluid/conductor/GunnsFluidLeak.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/conductor/GunnsFluidLeak.cpp b/aspects/fluid/conductor/GunnsFluidLeak.cpp
index 8a8c06d..4ef960d 100644
--- a/aspects/fluid/conductor/GunnsFluidLeak.cpp
+++ b/aspects/fluid/conductor/GunnsFluidLeak.cpp
@@ -229,17 +229,19 @@ inline void GunnsFluidLeak::updateState(const double dt __attribute__((unused)))
     if (mMalfLeakHoleFlag) {
         /// - For leak effective hole area malfunction, set effective conductivity to the effective
         ///   hole area.
-        if (mPreviousLeakHole != mMalfLeakHoleValue) {
+        if (mPreviousLeakHole != mMalfLeakHoleValue or mPreviousLeakRate != 0.0) {
             mLeakConductivity  = mMalfLeakHoleValue;
             mPreviousLeakHole  = mMalfLeakHoleValue;
+            mPreviousLeakRate  = 0.0;
         }
         mEffectiveConductivity = mLeakConductivity;
     } else if (mMalfLeakRateFlag) {
         /// - For leak rate malfunction, compute leak conductivity once on malfunction activation
         ///   and set effective conductivity.
-        if (mPreviousLeakRate != mMalfLeakRateValue) {
+        if (mPreviousLeakRate != mMalfLeakRateValue or mPreviousLeakHole != 0.0) {
             updateLeakConductance();
             mPreviousLeakRate  = mMalfLeakRateValue;
+            mPreviousLeakHole  = 0.0;
         }
         mEffectiveConductivity = mLeakConductivity;
     } else {
-- 
2.43.0


From 84543e9387d545d4046eda08f6ec4fc4aeeac5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 10/34] fix: 3-way check valve used path A's open pressure for
 path B and flipped its position at equal pressures

---
 aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
index 1d58309..42ca643 100644
--- a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
+++ b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
@@ -300,11 +300,11 @@ double GunnsFluid3WayCheckValve::calculateValvePosition()
                                     0.5 * (1 + (pressureA - pressureB - mMinPressureDiff)
                                              / (mOpenPressureA - mMinPressureDiff)),
                                     1.0);
-    } else if(pressureB > pressureA){
+    } else {
         /// - Greater potential drop across B, position less than 0.5
         position = MsMath::limitRange(0.0,
                                     0.5 * (1 - (pressureB - pressureA - mMinPressureDiff)
-                                             / (mOpenPressureA - mMinPressureDiff)),
+                                             / (mOpenPressureB - mMinPressureDiff)),
                                     0.5);
     }
 
-- 
2.43.0


From 556de89fe5da17247064100669efb9c576f0e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 11/34] fix: size initial power and current shorts once per
 value, and anew after another mode

---
 .../electrical/resistive/GunnsShortUtil.cpp   | 548 +++++++++---------
 1 file changed, 276 insertions(+), 272 deletions(-)

diff --git a/aspects/electrical/resistive/GunnsShortUtil.cpp b/aspects/electrical/resistive/GunnsShortUtil.cpp
index 93d6340..0d33b45 100755
--- a/aspects/electrical/resistive/GunnsShortUtil.cpp
+++ b/aspects/electrical/resistive/GunnsShortUtil.cpp
@@ -1,272 +1,276 @@
-/**
-@file
-@brief    GUNNS Electrical Short Utility implementation
-
-@copyright Copyright 2024 United States Government as represented by the Administrator of the
-           National Aeronautics and Space Administration.  All Rights Reserved.
-
-LIBRARY DEPENDENCY:
-    ()
-*/
-
-#include "GunnsShortUtil.hh"
-#include "math/MsMath.hh"
-#include <cfloat>
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] malfMinimumVoltage       (V)   Initial minimum voltage for all malfunction modes to flow.
-/// @param[in] malfConstantPowerFlag    (--)  Initial constant power short malfunction activation flag.
-/// @param[in] malfConstantPowerValue   (W)   Initial constant power short malfunction value.
-/// @param[in] malfConstantCurrentFlag  (--)  Initial constant current short malfunction activation flag.
-/// @param[in] malfConstantCurrentValue (amp) Initial constant current short malfunction value.
-/// @param[in] malfInitialPowerFlag     (--)  Initial initial power short malfunction activation flag.
-/// @param[in] malfInitialPowerValue    (W)   Initial initial power short malfunction value.
-/// @param[in] malfInitialCurrentFlag   (--)  Initial initial current short malfunction activation flag.
-/// @param[in] malfInitialCurrentValue  (amp) Initial initial current short malfunction value.
-/// @param[in] malfResistanceFlag       (--)  Initial constant resistance short malfunction activation flag.
-/// @param[in] malfResistanceValue      (ohm) Initial constant resistance short malfunction value.
-///
-/// @details  Default constructs this Electrical Short Utility input data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsShortUtilInputData::GunnsShortUtilInputData(const double malfMinimumVoltage,
-                                                 const bool   malfConstantPowerFlag,
-                                                 const double malfConstantPowerValue,
-                                                 const bool   malfConstantCurrentFlag,
-                                                 const double malfConstantCurrentValue,
-                                                 const bool   malfInitialPowerFlag,
-                                                 const double malfInitialPowerValue,
-                                                 const bool   malfInitialCurrentFlag,
-                                                 const double malfInitialCurrentValue,
-                                                 const bool   malfResistanceFlag,
-                                                 const double malfResistanceValue)
-    :
-    mMalfMinimumVoltage(malfMinimumVoltage),
-    mMalfConstantPowerFlag(malfConstantPowerFlag),
-    mMalfConstantPowerValue(malfConstantPowerValue),
-    mMalfConstantCurrentFlag(malfConstantCurrentFlag),
-    mMalfConstantCurrentValue(malfConstantCurrentValue),
-    mMalfInitialPowerFlag(malfInitialPowerFlag),
-    mMalfInitialPowerValue(malfInitialPowerValue),
-    mMalfInitialCurrentFlag(malfInitialCurrentFlag),
-    mMalfInitialCurrentValue(malfInitialCurrentValue),
-    mMalfResistanceFlag(malfResistanceFlag),
-    mMalfResistanceValue(malfResistanceValue)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] that (--) Object to copy from.
-///
-/// @details  Copy constructs this Electrical Short Utility input data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsShortUtilInputData::GunnsShortUtilInputData(const GunnsShortUtilInputData& that)
-    :
-    mMalfMinimumVoltage(that.mMalfMinimumVoltage),
-    mMalfConstantPowerFlag(that.mMalfConstantPowerFlag),
-    mMalfConstantPowerValue(that.mMalfConstantPowerValue),
-    mMalfConstantCurrentFlag(that.mMalfConstantCurrentFlag),
-    mMalfConstantCurrentValue(that.mMalfConstantCurrentValue),
-    mMalfInitialPowerFlag(that.mMalfInitialPowerFlag),
-    mMalfInitialPowerValue(that.mMalfInitialPowerValue),
-    mMalfInitialCurrentFlag(that.mMalfInitialCurrentFlag),
-    mMalfInitialCurrentValue(that.mMalfInitialCurrentValue),
-    mMalfResistanceFlag(that.mMalfResistanceFlag),
-    mMalfResistanceValue(that.mMalfResistanceValue)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this Electrical Short Utility input data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsShortUtilInputData::~GunnsShortUtilInputData()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Constructs the Electrical Short Utility object.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsShortUtil::GunnsShortUtil()
-    :
-    mMalfMinimumVoltage(0.0),
-    mMalfConstantPowerFlag(false),
-    mMalfConstantPowerValue(0.0),
-    mMalfConstantCurrentFlag(false),
-    mMalfConstantCurrentValue(0.0),
-    mMalfInitialPowerFlag(false),
-    mMalfInitialPowerValue(0.0),
-    mMalfInitialCurrentFlag(false),
-    mMalfInitialCurrentValue(0.0),
-    mMalfResistanceFlag(false),
-    mMalfResistanceValue(0.0),
-    mShortConductance(0.0),
-    mPreviousCurrent(0.0),
-    mPreviousPower(0.0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Destructs the Electrical Short Utility object.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsShortUtil::~GunnsShortUtil()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  inputData  (--) Reference to the model input data.
-///
-/// @details  Initializes the Electrical Short Utility object with input data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsShortUtil::initialize(const GunnsShortUtilInputData&  inputData)
-{
-    /// - Initialize class attributes.
-    mMalfMinimumVoltage       = inputData.mMalfMinimumVoltage;
-    mMalfConstantPowerFlag    = inputData.mMalfConstantPowerFlag;
-    mMalfConstantPowerValue   = inputData.mMalfConstantPowerValue;
-    mMalfConstantCurrentFlag  = inputData.mMalfConstantCurrentFlag;
-    mMalfConstantCurrentValue = inputData.mMalfConstantCurrentValue;
-    mMalfInitialPowerFlag     = inputData.mMalfInitialPowerFlag;
-    mMalfInitialPowerValue    = inputData.mMalfInitialPowerValue;
-    mMalfInitialCurrentFlag   = inputData.mMalfInitialCurrentFlag;
-    mMalfInitialCurrentValue  = inputData.mMalfInitialCurrentValue;
-    mMalfResistanceFlag       = inputData.mMalfResistanceFlag;
-    mMalfResistanceValue      = inputData.mMalfResistanceValue;
-    mShortConductance         = 0.0;
-    mPreviousCurrent          = 0.0;
-    mPreviousPower            = 0.0;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] voltage  (V)  Current voltage across the short.
-///
-/// @returns  double  (1/ohm)  Current conductance of the short.
-///
-/// @details  Computes and returns the electrical short conductance based on malfunction mode and
-///           given voltage.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-double GunnsShortUtil::computeShort(const double voltage)
-{
-    if (mMalfConstantPowerFlag) {
-        /// - Conductance of the constant power short is P=IV, I=VG, G=P/V^2.
-        mShortConductance = std::fabs(mMalfConstantPowerValue) / std::max(voltage*voltage, DBL_EPSILON);
-
-    } else if (mMalfConstantCurrentFlag) {
-        /// - Conductance of the constant current short is G=I/V.
-        mShortConductance = std::fabs(mMalfConstantCurrentValue) / std::max(std::fabs(voltage), DBL_EPSILON);
-
-    } else if (mMalfInitialPowerFlag) {
-        /// - Conductance of the initial power short is only updated when the desired power
-        ///   value changes.
-        if (std::fabs(mMalfInitialPowerValue) != mPreviousPower) {
-            mShortConductance = std::fabs(mMalfInitialPowerValue) / std::max(voltage*voltage, DBL_EPSILON);
-        }
-
-    } else if (mMalfInitialCurrentFlag) {
-        /// - Conductance of the initial current short is only updated when the desired
-        ///   current value changes.
-        if (std::fabs(mMalfInitialCurrentValue) != mPreviousCurrent) {
-            mShortConductance = std::fabs(mMalfInitialCurrentValue) / std::max(std::fabs(voltage), DBL_EPSILON);
-        }
-
-    } else if (mMalfResistanceFlag) {
-        /// - Conductance of the resistance short is G=1/R.
-        mShortConductance = 1.0 / std::max(mMalfResistanceValue, DBL_EPSILON);
-
-    } else {
-        /// - Reset the short conductance when all malfunctions are off.
-        mShortConductance = 0.0;
-    }
-
-    /// - Update or reset initial power and current latching terms.
-    if (mMalfInitialPowerFlag) {
-        mPreviousPower = mMalfInitialPowerValue;
-    } else {
-        mPreviousPower = 0.0;
-    }
-    if (mMalfInitialCurrentFlag) {
-        mPreviousCurrent = mMalfInitialCurrentValue;
-    } else {
-        mPreviousCurrent = 0.0;
-    }
-
-    return mShortConductance;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  flag   (--)  Malfunction activation flag.
-/// @param[in]  value  (W)   Malfunction activation value.
-/// @param[in]  minV   (V)   Malfunction minimum voltage value.
-///
-/// @details  Sets the constant power malfunction and minimum voltage controls to the given values.
-///           The default values clear the malfunction and zero the minimum voltage.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsShortUtil::setMalfConstantPower(const bool flag, const double value, const double minV)
-{
-    mMalfConstantPowerFlag  = flag;
-    mMalfConstantPowerValue = value;
-    mMalfMinimumVoltage     = minV;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  flag   (--)   Malfunction activation flag.
-/// @param[in]  value  (amp)  Malfunction activation value.
-/// @param[in]  minV   (V)    Malfunction minimum voltage value.
-///
-/// @details  Sets the constant current malfunction and minimum voltage controls to the given values.
-///           The default values clear the malfunction and zero the minimum voltage.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsShortUtil::setMalfConstantCurrent(const bool flag, const double value, const double minV)
-{
-    mMalfConstantCurrentFlag  = flag;
-    mMalfConstantCurrentValue = value;
-    mMalfMinimumVoltage       = minV;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  flag   (--)  Malfunction activation flag.
-/// @param[in]  value  (W)   Malfunction activation value.
-/// @param[in]  minV   (V)   Malfunction minimum voltage value.
-///
-/// @details  Sets the initial power malfunction and minimum voltage controls to the given values.
-///           The default values clear the malfunction and zero the minimum voltage.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsShortUtil::setMalfInitialPower(const bool flag, const double value, const double minV)
-{
-    mMalfInitialPowerFlag  = flag;
-    mMalfInitialPowerValue = value;
-    mMalfMinimumVoltage    = minV;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  flag   (--)   Malfunction activation flag.
-/// @param[in]  value  (amp)  Malfunction activation value.
-/// @param[in]  minV   (V)    Malfunction minimum voltage value.
-///
-/// @details  Sets the initial current malfunction and minimum voltage controls to the given values.
-///           The default values clear the malfunction and zero the minimum voltage.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsShortUtil::setMalfInitialCurrent(const bool flag, const double value, const double minV)
-{
-    mMalfInitialCurrentFlag  = flag;
-    mMalfInitialCurrentValue = value;
-    mMalfMinimumVoltage      = minV;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]  flag   (--)   Malfunction activation flag.
-/// @param[in]  value  (ohm)  Malfunction activation value.
-/// @param[in]  minV   (V)    Malfunction minimum voltage value.
-///
-/// @details  Sets the constant resistance malfunction and minimum voltage controls to the given values.
-///           The default values clear the malfunction and zero the minimum voltage.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsShortUtil::setMalfResistance(const bool flag, const double value, const double minV)
-{
-    mMalfResistanceFlag  = flag;
-    mMalfResistanceValue = value;
-    mMalfMinimumVoltage  = minV;
-}
+/**
+@file
+@brief    GUNNS Electrical Short Utility implementation
+
+@copyright Copyright 2024 United States Government as represented by the Administrator of the
+           National Aeronautics and Space Administration.  All Rights Reserved.
+
+LIBRARY DEPENDENCY:
+    ()
+*/
+
+#include "GunnsShortUtil.hh"
+#include "math/MsMath.hh"
+#include <cfloat>
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] malfMinimumVoltage       (V)   Initial minimum voltage for all malfunction modes to flow.
+/// @param[in] malfConstantPowerFlag    (--)  Initial constant power short malfunction activation flag.
+/// @param[in] malfConstantPowerValue   (W)   Initial constant power short malfunction value.
+/// @param[in] malfConstantCurrentFlag  (--)  Initial constant current short malfunction activation flag.
+/// @param[in] malfConstantCurrentValue (amp) Initial constant current short malfunction value.
+/// @param[in] malfInitialPowerFlag     (--)  Initial initial power short malfunction activation flag.
+/// @param[in] malfInitialPowerValue    (W)   Initial initial power short malfunction value.
+/// @param[in] malfInitialCurrentFlag   (--)  Initial initial current short malfunction activation flag.
+/// @param[in] malfInitialCurrentValue  (amp) Initial initial current short malfunction value.
+/// @param[in] malfResistanceFlag       (--)  Initial constant resistance short malfunction activation flag.
+/// @param[in] malfResistanceValue      (ohm) Initial constant resistance short malfunction value.
+///
+/// @details  Default constructs this Electrical Short Utility input data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsShortUtilInputData::GunnsShortUtilInputData(const double malfMinimumVoltage,
+                                                 const bool   malfConstantPowerFlag,
+                                                 const double malfConstantPowerValue,
+                                                 const bool   malfConstantCurrentFlag,
+                                                 const double malfConstantCurrentValue,
+                                                 const bool   malfInitialPowerFlag,
+                                                 const double malfInitialPowerValue,
+                                                 const bool   malfInitialCurrentFlag,
+                                                 const double malfInitialCurrentValue,
+                                                 const bool   malfResistanceFlag,
+                                                 const double malfResistanceValue)
+    :
+    mMalfMinimumVoltage(malfMinimumVoltage),
+    mMalfConstantPowerFlag(malfConstantPowerFlag),
+    mMalfConstantPowerValue(malfConstantPowerValue),
+    mMalfConstantCurrentFlag(malfConstantCurrentFlag),
+    mMalfConstantCurrentValue(malfConstantCurrentValue),
+    mMalfInitialPowerFlag(malfInitialPowerFlag),
+    mMalfInitialPowerValue(malfInitialPowerValue),
+    mMalfInitialCurrentFlag(malfInitialCurrentFlag),
+    mMalfInitialCurrentValue(malfInitialCurrentValue),
+    mMalfResistanceFlag(malfResistanceFlag),
+    mMalfResistanceValue(malfResistanceValue)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] that (--) Object to copy from.
+///
+/// @details  Copy constructs this Electrical Short Utility input data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsShortUtilInputData::GunnsShortUtilInputData(const GunnsShortUtilInputData& that)
+    :
+    mMalfMinimumVoltage(that.mMalfMinimumVoltage),
+    mMalfConstantPowerFlag(that.mMalfConstantPowerFlag),
+    mMalfConstantPowerValue(that.mMalfConstantPowerValue),
+    mMalfConstantCurrentFlag(that.mMalfConstantCurrentFlag),
+    mMalfConstantCurrentValue(that.mMalfConstantCurrentValue),
+    mMalfInitialPowerFlag(that.mMalfInitialPowerFlag),
+    mMalfInitialPowerValue(that.mMalfInitialPowerValue),
+    mMalfInitialCurrentFlag(that.mMalfInitialCurrentFlag),
+    mMalfInitialCurrentValue(that.mMalfInitialCurrentValue),
+    mMalfResistanceFlag(that.mMalfResistanceFlag),
+    mMalfResistanceValue(that.mMalfResistanceValue)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this Electrical Short Utility input data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsShortUtilInputData::~GunnsShortUtilInputData()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Constructs the Electrical Short Utility object.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsShortUtil::GunnsShortUtil()
+    :
+    mMalfMinimumVoltage(0.0),
+    mMalfConstantPowerFlag(false),
+    mMalfConstantPowerValue(0.0),
+    mMalfConstantCurrentFlag(false),
+    mMalfConstantCurrentValue(0.0),
+    mMalfInitialPowerFlag(false),
+    mMalfInitialPowerValue(0.0),
+    mMalfInitialCurrentFlag(false),
+    mMalfInitialCurrentValue(0.0),
+    mMalfResistanceFlag(false),
+    mMalfResistanceValue(0.0),
+    mShortConductance(0.0),
+    mPreviousCurrent(0.0),
+    mPreviousPower(0.0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Destructs the Electrical Short Utility object.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsShortUtil::~GunnsShortUtil()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  inputData  (--) Reference to the model input data.
+///
+/// @details  Initializes the Electrical Short Utility object with input data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsShortUtil::initialize(const GunnsShortUtilInputData&  inputData)
+{
+    /// - Initialize class attributes.
+    mMalfMinimumVoltage       = inputData.mMalfMinimumVoltage;
+    mMalfConstantPowerFlag    = inputData.mMalfConstantPowerFlag;
+    mMalfConstantPowerValue   = inputData.mMalfConstantPowerValue;
+    mMalfConstantCurrentFlag  = inputData.mMalfConstantCurrentFlag;
+    mMalfConstantCurrentValue = inputData.mMalfConstantCurrentValue;
+    mMalfInitialPowerFlag     = inputData.mMalfInitialPowerFlag;
+    mMalfInitialPowerValue    = inputData.mMalfInitialPowerValue;
+    mMalfInitialCurrentFlag   = inputData.mMalfInitialCurrentFlag;
+    mMalfInitialCurrentValue  = inputData.mMalfInitialCurrentValue;
+    mMalfResistanceFlag       = inputData.mMalfResistanceFlag;
+    mMalfResistanceValue      = inputData.mMalfResistanceValue;
+    mShortConductance         = 0.0;
+    mPreviousCurrent          = 0.0;
+    mPreviousPower            = 0.0;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] voltage  (V)  Current voltage across the short.
+///
+/// @returns  double  (1/ohm)  Current conductance of the short.
+///
+/// @details  Computes and returns the electrical short conductance based on malfunction mode and
+///           given voltage.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+double GunnsShortUtil::computeShort(const double voltage)
+{
+    if (mMalfConstantPowerFlag) {
+        /// - Conductance of the constant power short is P=IV, I=VG, G=P/V^2.
+        mShortConductance = std::fabs(mMalfConstantPowerValue) / std::max(voltage*voltage, DBL_EPSILON);
+
+    } else if (mMalfConstantCurrentFlag) {
+        /// - Conductance of the constant current short is G=I/V.
+        mShortConductance = std::fabs(mMalfConstantCurrentValue) / std::max(std::fabs(voltage), DBL_EPSILON);
+
+    } else if (mMalfInitialPowerFlag) {
+        /// - Conductance of the initial power short is only updated when the desired power
+        ///   value changes.
+        const double power = std::fabs(mMalfInitialPowerValue);
+        if (power != mPreviousPower or 0.0 == power) {
+            mShortConductance = power / std::max(voltage*voltage, DBL_EPSILON);
+        }
+
+    } else if (mMalfInitialCurrentFlag) {
+        /// - Conductance of the initial current short is only updated when the desired
+        ///   current value changes.
+        const double current = std::fabs(mMalfInitialCurrentValue);
+        if (current != mPreviousCurrent or 0.0 == current) {
+            mShortConductance = current / std::max(std::fabs(voltage), DBL_EPSILON);
+        }
+
+    } else if (mMalfResistanceFlag) {
+        /// - Conductance of the resistance short is G=1/R.
+        mShortConductance = 1.0 / std::max(mMalfResistanceValue, DBL_EPSILON);
+
+    } else {
+        /// - Reset the short conductance when all malfunctions are off.
+        mShortConductance = 0.0;
+    }
+
+    /// - Update or reset initial power and current latching terms.  A value is only latched while
+    ///   its malfunction is the one that sets the conductance.
+    const bool constantMode = mMalfConstantPowerFlag or mMalfConstantCurrentFlag;
+    if (mMalfInitialPowerFlag and not constantMode) {
+        mPreviousPower = std::fabs(mMalfInitialPowerValue);
+    } else {
+        mPreviousPower = 0.0;
+    }
+    if (mMalfInitialCurrentFlag and not (mMalfInitialPowerFlag or constantMode)) {
+        mPreviousCurrent = std::fabs(mMalfInitialCurrentValue);
+    } else {
+        mPreviousCurrent = 0.0;
+    }
+
+    return mShortConductance;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  flag   (--)  Malfunction activation flag.
+/// @param[in]  value  (W)   Malfunction activation value.
+/// @param[in]  minV   (V)   Malfunction minimum voltage value.
+///
+/// @details  Sets the constant power malfunction and minimum voltage controls to the given values.
+///           The default values clear the malfunction and zero the minimum voltage.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsShortUtil::setMalfConstantPower(const bool flag, const double value, const double minV)
+{
+    mMalfConstantPowerFlag  = flag;
+    mMalfConstantPowerValue = value;
+    mMalfMinimumVoltage     = minV;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  flag   (--)   Malfunction activation flag.
+/// @param[in]  value  (amp)  Malfunction activation value.
+/// @param[in]  minV   (V)    Malfunction minimum voltage value.
+///
+/// @details  Sets the constant current malfunction and minimum voltage controls to the given values.
+///           The default values clear the malfunction and zero the minimum voltage.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsShortUtil::setMalfConstantCurrent(const bool flag, const double value, const double minV)
+{
+    mMalfConstantCurrentFlag  = flag;
+    mMalfConstantCurrentValue = value;
+    mMalfMinimumVoltage       = minV;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  flag   (--)  Malfunction activation flag.
+/// @param[in]  value  (W)   Malfunction activation value.
+/// @param[in]  minV   (V)   Malfunction minimum voltage value.
+///
+/// @details  Sets the initial power malfunction and minimum voltage controls to the given values.
+///           The default values clear the malfunction and zero the minimum voltage.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsShortUtil::setMalfInitialPower(const bool flag, const double value, const double minV)
+{
+    mMalfInitialPowerFlag  = flag;
+    mMalfInitialPowerValue = value;
+    mMalfMinimumVoltage    = minV;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  flag   (--)   Malfunction activation flag.
+/// @param[in]  value  (amp)  Malfunction activation value.
+/// @param[in]  minV   (V)    Malfunction minimum voltage value.
+///
+/// @details  Sets the initial current malfunction and minimum voltage controls to the given values.
+///           The default values clear the malfunction and zero the minimum voltage.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsShortUtil::setMalfInitialCurrent(const bool flag, const double value, const double minV)
+{
+    mMalfInitialCurrentFlag  = flag;
+    mMalfInitialCurrentValue = value;
+    mMalfMinimumVoltage      = minV;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]  flag   (--)   Malfunction activation flag.
+/// @param[in]  value  (ohm)  Malfunction activation value.
+/// @param[in]  minV   (V)    Malfunction minimum voltage value.
+///
+/// @details  Sets the constant resistance malfunction and minimum voltage controls to the given values.
+///           The default values clear the malfunction and zero the minimum voltage.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsShortUtil::setMalfResistance(const bool flag, const double value, const double minV)
+{
+    mMalfResistanceFlag  = flag;
+    mMalfResistanceValue = value;
+    mMalfMinimumVoltage  = minV;
+}
-- 
2.43.0


From 69216c814244af134f3f521139296d05d87c0b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 12/34] fix: tangent line of the power function resistor in
 reverse flow

---
 .../resistive/GunnsResistorPowerFunction.cpp  | 663 +++++++++---------
 1 file changed, 333 insertions(+), 330 deletions(-)

diff --git a/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp b/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
index c4854ae..b5c27b6 100755
--- a/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
+++ b/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
@@ -1,330 +1,333 @@
-/**
-@file
-@brief    GUNNS Resistor With Power Function Link implementation
-
-@copyright Copyright 2024 United States Government as represented by the Administrator of the
-           National Aeronautics and Space Administration.  All Rights Reserved.
-
-LIBRARY DEPENDENCY:
-    (
-     (core/GunnsBasicLink.o)
-    )
-*/
-
-#include "software/exceptions/TsInitializationException.hh"
-#include "math/MsMath.hh"
-#include <cfloat>
-#include "GunnsResistorPowerFunction.hh"
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] name            (--)  Link name.
-/// @param[in] nodes           (--)  Network nodes array.
-/// @param[in] resistance      (--)  Resistance to flow.
-/// @param[in] exponent        (--)  Exponent on the power function.
-/// @param[in] useTangentLine  (--)  Flag to enable tangent-line approximation.
-///
-/// @details  Constructs the Resistor With Power Function Config data.  The base class default
-///           conductivity term is not used.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsResistorPowerFunctionConfigData::GunnsResistorPowerFunctionConfigData(
-        const std::string& name,
-        GunnsNodeList*     nodes,
-        const double       resistance,
-        const double       exponent,
-        const bool         useTangentLine)
-    :
-    GunnsBasicLinkConfigData(name, nodes),
-    mResistance(resistance),
-    mExponent(exponent),
-    mUseTangentLine(useTangentLine)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] that (--) Object to copy from.
-///
-/// @details  Copy Constructs the Resistor With Power Function Config data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsResistorPowerFunctionConfigData::GunnsResistorPowerFunctionConfigData(
-        const GunnsResistorPowerFunctionConfigData& that)
-    :
-    GunnsBasicLinkConfigData(that),
-    mResistance(that.mResistance),
-    mExponent(that.mExponent),
-    mUseTangentLine(that.mUseTangentLine)
-{
-    // nothing to do
-}
-
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Destructs the Resistor With Power Function Config Data Object.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsResistorPowerFunctionConfigData::~GunnsResistorPowerFunctionConfigData()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] malfBlockageFlag  (--) Blockage malfunction flag.
-/// @param[in] malfBlockageValue (--) Blockage malfunction fractional value (0-1).
-///
-/// @details  Default constructs this Resistor With Power Function input data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsResistorPowerFunctionInputData::GunnsResistorPowerFunctionInputData(
-        const bool   malfBlockageFlag,
-        const double malfBlockageValue)
-    :
-    GunnsBasicLinkInputData(malfBlockageFlag, malfBlockageValue)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] that (--) Object to copy from.
-///
-/// @details  Copy constructs this Resistor With Power Function input data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsResistorPowerFunctionInputData::GunnsResistorPowerFunctionInputData(
-        const GunnsResistorPowerFunctionInputData& that)
-    :
-        GunnsBasicLinkInputData(that)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Default destructs this Resistor With Power Function input data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsResistorPowerFunctionInputData::~GunnsResistorPowerFunctionInputData()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Constructs the Resistor With Power Function Object.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsResistorPowerFunction::GunnsResistorPowerFunction()
-    :
-    GunnsBasicLink(NPORTS),
-    mResistance(0.0),
-    mExponent(0.0),
-    mUseTangentLine(false),
-    mSystemAdmittance(0.0),
-    mSystemSource(0.0)
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Destructs the Resistor With Power Function Object.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-GunnsResistorPowerFunction::~GunnsResistorPowerFunction()
-{
-    // nothing to do
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in]     configData   (--) Reference to Link Config Data
-/// @param[in]     inputData    (--) Reference to Link Input Data
-/// @param[in,out] networkLinks (--) Reference to the Network Link Vector
-/// @param[in]     port0        (--) Port 0 Mapping
-/// @param[in]     port1        (--) Port 1 Mapping
-///
-/// @throws   TsInitializationException
-///
-/// @details  Initializes the basic conductor with config and input data.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsResistorPowerFunction::initialize(const GunnsResistorPowerFunctionConfigData& configData,
-                                            const GunnsResistorPowerFunctionInputData&  inputData,
-                                            std::vector<GunnsBasicLink*>&               networkLinks,
-                                            const int                                   port0,
-                                            const int                                   port1)
-{
-    /// - Initialize the parent class.
-    int ports[2] = {port0, port1};
-    GunnsBasicLink::initialize(configData, inputData, networkLinks, ports);
-
-    /// - Reset init flag.
-    mInitFlag = false;
-
-    /// - Initialize class attributes.
-    mResistance           = configData.mResistance;
-    mExponent             = configData.mExponent;
-    mUseTangentLine       = configData.mUseTangentLine;
-    mSystemAdmittance     = 0.0;
-    mSystemSource         = 0.0;
-
-    validate();
-
-    /// - Set init flag on successful validation.
-    mInitFlag = true;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @throws   TsInitializationException
-///
-/// @details  Validates the link initialization.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsResistorPowerFunction::validate() const
-{
-    /// - Issue an error on flow resistance being less than DBL_EPSILON.
-    if (mResistance < DBL_EPSILON) {
-        GUNNS_ERROR(TsInitializationException, "Invalid Configuration Data",
-                    "flow resistance < DBL_EPSILON.");
-    }
-
-    /// - Issue an error on exponent too close to zero.
-    if (std::fabs(mExponent) < 0.001) {
-        GUNNS_ERROR(TsInitializationException, "Invalid Configuration Data",
-                    "exponent too near to zero.");
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Derived classes should call their base class implementation too.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsResistorPowerFunction::restartModel()
-{
-    /// - Reset the base class.
-    GunnsBasicLink::restartModel();
-
-    /// - Reset non-config & non-checkpointed class attributes.
-    mSystemAdmittance     = 0.0;
-    mSystemSource         = 0.0;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] dt (s) Integration time step
-///
-/// @details  Calls minorStep every pass, since this non-linear link doesn't do anything different
-///           between the 1st & subsequent minor steps.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsResistorPowerFunction::step(const double dt __attribute__((unused)))
-{
-    /// - Process user commands to dynamically re-map ports.
-    processUserPortCommand();
-
-    minorStep(dt, 1);
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] dt        (s)  Not used.
-/// @param[in] minorStep (--) Not used.
-///
-/// @details  Updates this link's contributions to the network system of equations.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsResistorPowerFunction::minorStep(const double dt        __attribute__((unused)),
-                                           const int    minorStep __attribute__((unused)))
-{
-    /// - Link delta-potential is limited to above a minimum for stability in linearization and to
-    ///   avoid divide-by-zero below.
-    const double dPLimit = std::max(std::fabs(mPotentialVector[0] - mPotentialVector[1]),
-                                    mMinLinearizationPotential);
-
-    /// - Conductance is the inverse of resistance, limited to valid ranges.  Blockage malfunction
-    ///   lowers the conductance.
-    double gLimit = 1.0 / std::max(mResistance, 1.0 / mConductanceLimit);
-    if (mMalfBlockageFlag) {
-        gLimit *= MsMath::limitRange(0.0, (1.0 - mMalfBlockageValue), 1.0);
-    }
-
-    /// - Exponent is limited away from zero to avoid instability.
-    const double expInv = 1.0 / MsMath::innerLimit(-0.001, mExponent, 0.001);
-    const double dPG    = dPLimit * gLimit;
-
-    if (gLimit >= 1.0 / mConductanceLimit) {
-        if (mUseTangentLine) {
-            /// - Use this tangent-line approximation option with caution.  It takes a lot more
-            ///   minor steps to converge, and tends to be unstable when combined with other
-            ///   similarly-configured links.  We only included it for completeness.
-            ///
-            ///     dP = R * i^x,     G = 1/R
-            ///     linearize tangent-line to w = A * dP
-            ///     (dP*G) = i^x
-            ///     i = (dP*G)^(1/x)
-            ///     idot = (1/x)*(dP*G)^(1/x - 1) = A
-            ///     i = A*dP + w
-            ///     w = i - A*dP
-            ///
-            const double current = std::pow(dPG, expInv);
-            mSystemAdmittance    = expInv * std::pow(dPG, (expInv - 1.0));
-            mSystemSource        = current - mSystemAdmittance * dPLimit;
-
-        } else {
-            /// - The is the default, and in our opinion, far better configuration.  The
-            ///   linearization passes thru the origin instead of being tangent to the curve
-            ///   (similar to GunnsFluidConductor).  This trades accuracy for stability during
-            ///   transient events but still converges to the correct solution as the non-linear
-            ///   network converges.
-            ///
-            ///     dP = R * w^x,      G = 1/R
-            ///     linearize to w = A * dP
-            ///     dP*G = w^x
-            ///     (dP*G)^(1/x) = w = A*dP
-            ///     A = (dP*G)^(1/x) / dP
-            ///
-            mSystemAdmittance = std::pow(dPLimit * gLimit, expInv) / dPLimit;
-            mSystemSource     = 0.0;
-        }
-    } else {
-        mSystemAdmittance = 0.0;
-        mSystemSource     = 0.0;
-    }
-
-    buildAdmittance();
-    buildSource();
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @param[in] dt (s) Integration time step
-///
-/// @details  Method for computing the flows across the link
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsResistorPowerFunction::computeFlows(const double dt)
-{
-    mPotentialDrop = getDeltaPotential();
-    computeFlux();
-    updateFlux(dt, mFlux);
-    computePower();
-    transportFlux();
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Sets the link admittance matrix for inclusion into the network.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsResistorPowerFunction::buildAdmittance()
-{
-    if (std::fabs(mAdmittanceMatrix[0] - mSystemAdmittance) > 0.0) {
-        mAdmittanceMatrix[0]  =  mSystemAdmittance;
-        mAdmittanceMatrix[1]  = -mSystemAdmittance;
-        mAdmittanceMatrix[2]  = -mSystemAdmittance;
-        mAdmittanceMatrix[3]  =  mSystemAdmittance;
-        mAdmittanceUpdate     = true;
-    }
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Sets the link source vector for inclusion into the network.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsResistorPowerFunction::buildSource()
-{
-    mSourceVector[0] = -mSystemSource;
-    mSourceVector[1] =  mSystemSource;
-}
-
-////////////////////////////////////////////////////////////////////////////////////////////////////
-/// @details  Compute flux across the link, defined positive from port 0 to port 1.
-////////////////////////////////////////////////////////////////////////////////////////////////////
-void GunnsResistorPowerFunction::computeFlux()
-{
-    const double hiP = std::max(mPotentialVector[0], mPotentialVector[1]);
-    if (std::fabs(mPotentialDrop) < (hiP * m100EpsilonLimit)) {
-        /// - Zero flux if dP is too low.  This eliminates most false quantity leak due to rounding
-        ///   error in the solver.
-        mFlux = 0.0;
-    } else {
-        mFlux = mPotentialDrop * mAdmittanceMatrix[0] + mSourceVector[1];
-    }
-}
+/**
+@file
+@brief    GUNNS Resistor With Power Function Link implementation
+
+@copyright Copyright 2024 United States Government as represented by the Administrator of the
+           National Aeronautics and Space Administration.  All Rights Reserved.
+
+LIBRARY DEPENDENCY:
+    (
+     (core/GunnsBasicLink.o)
+    )
+*/
+
+#include "software/exceptions/TsInitializationException.hh"
+#include "math/MsMath.hh"
+#include <cfloat>
+#include "GunnsResistorPowerFunction.hh"
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] name            (--)  Link name.
+/// @param[in] nodes           (--)  Network nodes array.
+/// @param[in] resistance      (--)  Resistance to flow.
+/// @param[in] exponent        (--)  Exponent on the power function.
+/// @param[in] useTangentLine  (--)  Flag to enable tangent-line approximation.
+///
+/// @details  Constructs the Resistor With Power Function Config data.  The base class default
+///           conductivity term is not used.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsResistorPowerFunctionConfigData::GunnsResistorPowerFunctionConfigData(
+        const std::string& name,
+        GunnsNodeList*     nodes,
+        const double       resistance,
+        const double       exponent,
+        const bool         useTangentLine)
+    :
+    GunnsBasicLinkConfigData(name, nodes),
+    mResistance(resistance),
+    mExponent(exponent),
+    mUseTangentLine(useTangentLine)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] that (--) Object to copy from.
+///
+/// @details  Copy Constructs the Resistor With Power Function Config data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsResistorPowerFunctionConfigData::GunnsResistorPowerFunctionConfigData(
+        const GunnsResistorPowerFunctionConfigData& that)
+    :
+    GunnsBasicLinkConfigData(that),
+    mResistance(that.mResistance),
+    mExponent(that.mExponent),
+    mUseTangentLine(that.mUseTangentLine)
+{
+    // nothing to do
+}
+
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Destructs the Resistor With Power Function Config Data Object.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsResistorPowerFunctionConfigData::~GunnsResistorPowerFunctionConfigData()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] malfBlockageFlag  (--) Blockage malfunction flag.
+/// @param[in] malfBlockageValue (--) Blockage malfunction fractional value (0-1).
+///
+/// @details  Default constructs this Resistor With Power Function input data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsResistorPowerFunctionInputData::GunnsResistorPowerFunctionInputData(
+        const bool   malfBlockageFlag,
+        const double malfBlockageValue)
+    :
+    GunnsBasicLinkInputData(malfBlockageFlag, malfBlockageValue)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] that (--) Object to copy from.
+///
+/// @details  Copy constructs this Resistor With Power Function input data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsResistorPowerFunctionInputData::GunnsResistorPowerFunctionInputData(
+        const GunnsResistorPowerFunctionInputData& that)
+    :
+        GunnsBasicLinkInputData(that)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Default destructs this Resistor With Power Function input data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsResistorPowerFunctionInputData::~GunnsResistorPowerFunctionInputData()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Constructs the Resistor With Power Function Object.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsResistorPowerFunction::GunnsResistorPowerFunction()
+    :
+    GunnsBasicLink(NPORTS),
+    mResistance(0.0),
+    mExponent(0.0),
+    mUseTangentLine(false),
+    mSystemAdmittance(0.0),
+    mSystemSource(0.0)
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Destructs the Resistor With Power Function Object.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+GunnsResistorPowerFunction::~GunnsResistorPowerFunction()
+{
+    // nothing to do
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]     configData   (--) Reference to Link Config Data
+/// @param[in]     inputData    (--) Reference to Link Input Data
+/// @param[in,out] networkLinks (--) Reference to the Network Link Vector
+/// @param[in]     port0        (--) Port 0 Mapping
+/// @param[in]     port1        (--) Port 1 Mapping
+///
+/// @throws   TsInitializationException
+///
+/// @details  Initializes the basic conductor with config and input data.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsResistorPowerFunction::initialize(const GunnsResistorPowerFunctionConfigData& configData,
+                                            const GunnsResistorPowerFunctionInputData&  inputData,
+                                            std::vector<GunnsBasicLink*>&               networkLinks,
+                                            const int                                   port0,
+                                            const int                                   port1)
+{
+    /// - Initialize the parent class.
+    int ports[2] = {port0, port1};
+    GunnsBasicLink::initialize(configData, inputData, networkLinks, ports);
+
+    /// - Reset init flag.
+    mInitFlag = false;
+
+    /// - Initialize class attributes.
+    mResistance           = configData.mResistance;
+    mExponent             = configData.mExponent;
+    mUseTangentLine       = configData.mUseTangentLine;
+    mSystemAdmittance     = 0.0;
+    mSystemSource         = 0.0;
+
+    validate();
+
+    /// - Set init flag on successful validation.
+    mInitFlag = true;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @throws   TsInitializationException
+///
+/// @details  Validates the link initialization.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsResistorPowerFunction::validate() const
+{
+    /// - Issue an error on flow resistance being less than DBL_EPSILON.
+    if (mResistance < DBL_EPSILON) {
+        GUNNS_ERROR(TsInitializationException, "Invalid Configuration Data",
+                    "flow resistance < DBL_EPSILON.");
+    }
+
+    /// - Issue an error on exponent too close to zero.
+    if (std::fabs(mExponent) < 0.001) {
+        GUNNS_ERROR(TsInitializationException, "Invalid Configuration Data",
+                    "exponent too near to zero.");
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Derived classes should call their base class implementation too.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsResistorPowerFunction::restartModel()
+{
+    /// - Reset the base class.
+    GunnsBasicLink::restartModel();
+
+    /// - Reset non-config & non-checkpointed class attributes.
+    mSystemAdmittance     = 0.0;
+    mSystemSource         = 0.0;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] dt (s) Integration time step
+///
+/// @details  Calls minorStep every pass, since this non-linear link doesn't do anything different
+///           between the 1st & subsequent minor steps.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsResistorPowerFunction::step(const double dt __attribute__((unused)))
+{
+    /// - Process user commands to dynamically re-map ports.
+    processUserPortCommand();
+
+    minorStep(dt, 1);
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] dt        (s)  Not used.
+/// @param[in] minorStep (--) Not used.
+///
+/// @details  Updates this link's contributions to the network system of equations.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsResistorPowerFunction::minorStep(const double dt        __attribute__((unused)),
+                                           const int    minorStep __attribute__((unused)))
+{
+    /// - Link delta-potential is limited to above a minimum for stability in linearization and to
+    ///   avoid divide-by-zero below.
+    const double dPLimit = std::max(std::fabs(mPotentialVector[0] - mPotentialVector[1]),
+                                    mMinLinearizationPotential);
+
+    /// - Conductance is the inverse of resistance, limited to valid ranges.  Blockage malfunction
+    ///   lowers the conductance.
+    double gLimit = 1.0 / std::max(mResistance, 1.0 / mConductanceLimit);
+    if (mMalfBlockageFlag) {
+        gLimit *= MsMath::limitRange(0.0, (1.0 - mMalfBlockageValue), 1.0);
+    }
+
+    /// - Exponent is limited away from zero to avoid instability.
+    const double expInv = 1.0 / MsMath::innerLimit(-0.001, mExponent, 0.001);
+    const double dPG    = dPLimit * gLimit;
+
+    if (gLimit >= 1.0 / mConductanceLimit) {
+        if (mUseTangentLine) {
+            /// - Use this tangent-line approximation option with caution.  It takes a lot more
+            ///   minor steps to converge, and tends to be unstable when combined with other
+            ///   similarly-configured links.  We only included it for completeness.
+            ///
+            ///     dP = R * i^x,     G = 1/R
+            ///     linearize tangent-line to w = A * dP
+            ///     (dP*G) = i^x
+            ///     i = (dP*G)^(1/x)
+            ///     idot = (1/x)*(dP*G)^(1/x - 1) = A
+            ///     i = A*dP + w
+            ///     w = i - A*dP
+            ///
+            const double current = std::pow(dPG, expInv);
+            mSystemAdmittance    = expInv * std::pow(dPG, (expInv - 1.0));
+            mSystemSource        = current - mSystemAdmittance * dPLimit;
+            if (mPotentialVector[0] < mPotentialVector[1]) {
+                mSystemSource    = -mSystemSource;
+            }
+
+        } else {
+            /// - The is the default, and in our opinion, far better configuration.  The
+            ///   linearization passes thru the origin instead of being tangent to the curve
+            ///   (similar to GunnsFluidConductor).  This trades accuracy for stability during
+            ///   transient events but still converges to the correct solution as the non-linear
+            ///   network converges.
+            ///
+            ///     dP = R * w^x,      G = 1/R
+            ///     linearize to w = A * dP
+            ///     dP*G = w^x
+            ///     (dP*G)^(1/x) = w = A*dP
+            ///     A = (dP*G)^(1/x) / dP
+            ///
+            mSystemAdmittance = std::pow(dPLimit * gLimit, expInv) / dPLimit;
+            mSystemSource     = 0.0;
+        }
+    } else {
+        mSystemAdmittance = 0.0;
+        mSystemSource     = 0.0;
+    }
+
+    buildAdmittance();
+    buildSource();
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] dt (s) Integration time step
+///
+/// @details  Method for computing the flows across the link
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsResistorPowerFunction::computeFlows(const double dt)
+{
+    mPotentialDrop = getDeltaPotential();
+    computeFlux();
+    updateFlux(dt, mFlux);
+    computePower();
+    transportFlux();
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Sets the link admittance matrix for inclusion into the network.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsResistorPowerFunction::buildAdmittance()
+{
+    if (std::fabs(mAdmittanceMatrix[0] - mSystemAdmittance) > 0.0) {
+        mAdmittanceMatrix[0]  =  mSystemAdmittance;
+        mAdmittanceMatrix[1]  = -mSystemAdmittance;
+        mAdmittanceMatrix[2]  = -mSystemAdmittance;
+        mAdmittanceMatrix[3]  =  mSystemAdmittance;
+        mAdmittanceUpdate     = true;
+    }
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Sets the link source vector for inclusion into the network.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsResistorPowerFunction::buildSource()
+{
+    mSourceVector[0] = -mSystemSource;
+    mSourceVector[1] =  mSystemSource;
+}
+
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @details  Compute flux across the link, defined positive from port 0 to port 1.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsResistorPowerFunction::computeFlux()
+{
+    const double hiP = std::max(mPotentialVector[0], mPotentialVector[1]);
+    if (std::fabs(mPotentialDrop) < (hiP * m100EpsilonLimit)) {
+        /// - Zero flux if dP is too low.  This eliminates most false quantity leak due to rounding
+        ///   error in the solver.
+        mFlux = 0.0;
+    } else {
+        mFlux = mPotentialDrop * mAdmittanceMatrix[0] + mSourceVector[1];
+    }
+}
-- 
2.43.0


From e84506ccac1aa7c8d5aea403bda0b350c7159272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 13/34] fix: check the converter output trips and limits
 against the current of this solution

---
 aspects/electrical/Converter/GunnsElectConverterOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/electrical/Converter/GunnsElectConverterOutput.cpp b/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
index 44d5a21..c203865 100755
--- a/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
+++ b/aspects/electrical/Converter/GunnsElectConverterOutput.cpp
@@ -526,6 +526,8 @@ GunnsBasicLink::SolutionResult GunnsElectConverterOutput::confirmSolutionAccepta
 
         /// - After the network as converged, compute currents, powers and check for trips.
         if ((convergedStep > 0) and (REJECT != result)) {
+            /// - The power calculation leaves the flux as it was when the last solution was rejected.
+            computeFlux();
             computeInputPower(mInputPower);
 
             /// - Sensors are optional; if a sensor exists then the trip uses its sensed value of
-- 
2.43.0


From 540e2dc2adbef0f082eac56a14b14193fad22bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 14/34] fix: supply side of the fluid distributed interface
 took the received flow's temperature from its own fluid

---
 core/GunnsFluidDistributedIf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/GunnsFluidDistributedIf.cpp b/core/GunnsFluidDistributedIf.cpp
index 0a9392b..23604b3 100755
--- a/core/GunnsFluidDistributedIf.cpp
+++ b/core/GunnsFluidDistributedIf.cpp
@@ -456,12 +456,12 @@ double GunnsFluidDistributedIf::inputFluid(const double pressure, PolyFluid* flu
     fluid->setPressure(pressure);
 
     if (mUseEnthalpy) {
-        fluid->setTemperature(fluid->computeTemperature(mWorkFluidState.mEnergy));
+        fluid->setTemperature(fluid->computeTemperature(workingState->mEnergy));
     } else {
-        fluid->setTemperature(mWorkFluidState.mEnergy);
+        fluid->setTemperature(workingState->mEnergy);
     }
 
-    if (mWorkFluidState.mTcMoleFractions) {
+    if (workingState->mTcMoleFractions) {
         GunnsFluidTraceCompounds* tc = fluid->getTraceCompounds();
         if (tc) {
             /// - As above, adjust the TC mole fractions to be relative to the internal GUNNS bulk
-- 
2.43.0


From 629eaa35a5a34ef4031f01c8e8dab7c6323609b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 15/34] fix: fluid bus forced to supply sent a zero pressure
 when its capacitance was low

---
 ms-utils/interop/Distributed2WayBusFluid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ms-utils/interop/Distributed2WayBusFluid.cpp b/ms-utils/interop/Distributed2WayBusFluid.cpp
index bf1fad6..9ac7796 100755
--- a/ms-utils/interop/Distributed2WayBusFluid.cpp
+++ b/ms-utils/interop/Distributed2WayBusFluid.cpp
@@ -557,7 +557,9 @@ void Distributed2WayBusFluid::flipModesOnCapacitance()
         /// - Zero the output pressure/flow source term so the other side doesn't interpret our old
         ///   pressure value as a demand flux.  This will be set to a demand flux on the next full
         ///   pass in demand mode.
-        mOutData.mSource = 0.0;
+        if (isInDemandRole()) {
+            mOutData.mSource = 0.0;
+        }
     }
 }
 
-- 
2.43.0


From 9b43e0d23ea2ae5b3a867273eb8ea8e75466b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 16/34] fix: position valve controller moves toward its command
 with a negative reference command

---
 .../common/controllers/fluid/TsPositionValveController.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gunns-ts-models/common/controllers/fluid/TsPositionValveController.cpp b/gunns-ts-models/common/controllers/fluid/TsPositionValveController.cpp
index 6b67e5c..6cd4b97 100644
--- a/gunns-ts-models/common/controllers/fluid/TsPositionValveController.cpp
+++ b/gunns-ts-models/common/controllers/fluid/TsPositionValveController.cpp
@@ -191,8 +191,9 @@ void TsPositionValveController::update(const bool                supplyVoltageFl
     if (std::fabs(command.mPosition - sensed) < mTolerance) {
         cmd                = 0.0;
     } else if (dt > DBL_EPSILON){
-        const double limit = dt * mCmdScale;
-        cmd                = MsMath::limitRange(-limit, command.mPosition - sensed, +limit) / limit;
+        const double scale = dt * mCmdScale;
+        const double limit = std::fabs(scale);
+        cmd                = MsMath::limitRange(-limit, command.mPosition - sensed, +limit) / scale;
     }
 
     TsPoweredValveController::update(supplyVoltageFlag, command.mEnable, cmd, dt);
-- 
2.43.0


From 4581f88cde65611bcc3a99987de1aa7442722b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 17/34] fix: tank stops adding a constituent whose partial
 pressure rate edit is over

While the edit of one constituent goes on, a constituent whose own edit
has just completed (or was cancelled) kept its mass of the previous step
in the internal fluid, and that mass was added to the node once more.
---
 aspects/fluid/capacitor/GunnsFluidTank.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/fluid/capacitor/GunnsFluidTank.cpp b/aspects/fluid/capacitor/GunnsFluidTank.cpp
index 900aa92..c485348 100644
--- a/aspects/fluid/capacitor/GunnsFluidTank.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidTank.cpp
@@ -340,6 +340,7 @@ void GunnsFluidTank::updateState(const double dt)
             const double rate = std::fabs(mEditPartialPressureRateValue[i]);
             if (rate < DBL_EPSILON) {
                 mEditPartialPressureRateFlag[i] = false;
+                mInternalFluid->setMass(i, 0.0);
                 GUNNS_WARNING("partial pressure rate edit canceled, zero rate not allowed.");
 
             } else {
@@ -372,6 +373,7 @@ void GunnsFluidTank::updateState(const double dt)
                     mInternalFluid->setMass(i, constituentMass);
                 } else {
                     mEditPartialPressureRateFlag[i] = false;
+                    mInternalFluid->setMass(i, 0.0);
                 }
             }
 
-- 
2.43.0


From db982be4716f4de9a6ee7f72481344509ba184fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 18/34] fix: adsorber kept a stale source for the solver after
 sorption had stopped

---
 aspects/fluid/source/GunnsFluidAdsorber.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidAdsorber.cpp b/aspects/fluid/source/GunnsFluidAdsorber.cpp
index 548f66c..ced8290 100644
--- a/aspects/fluid/source/GunnsFluidAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorber.cpp
@@ -372,10 +372,12 @@ void GunnsFluidAdsorber::restartModel()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidAdsorber::updateFluid(const double dt, const double flowRate __attribute__((unused)))
 {
-    /// - Zero the sorbtion flow rate and reset the sorbtion fluid.
+    /// - Zero the sorbtion flow rate and source vector, and reset the sorbtion fluid.
     mSorbtionFluid->resetState();
     mSorbtionFlowRate = 0.0;
     mMass             = 0.0;
+    mSourceVector[0]  = 0.0;
+    mSourceVector[1]  = 0.0;
 
     /// - Skip sorbtion when the time step is negligible.
     if (dt > DBL_EPSILON) {
@@ -404,12 +406,10 @@ void GunnsFluidAdsorber::updateFluid(const double dt, const double flowRate __at
             ///   previous cycle flowrate, which could result in mass errors, which GUNNS can't fix.
             if (mFlowRate >= 0.0) {
                 mNodes[1]->collectInflux(mSorbtionFlowRate, mSorbtionFluid);
-                mSourceVector[0] = 0.0;
                 mSourceVector[1] = mSorbtionFlowRate / mSorbtionFluid->getMWeight();
             } else {
                 mNodes[0]->collectInflux(mSorbtionFlowRate, mSorbtionFluid);
                 mSourceVector[0] = mSorbtionFlowRate / mSorbtionFluid->getMWeight();
-                mSourceVector[1] = 0.0;
             }
         }
     }
-- 
2.43.0


From 9a68484e1083d1ba41e5ce3e33dec1a9d8031c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 19/34] fix: adsorber subtracted trace compounds from its bed
 in reverse flow

---
 aspects/fluid/source/GunnsFluidAdsorber.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidAdsorber.cpp b/aspects/fluid/source/GunnsFluidAdsorber.cpp
index ced8290..0442aa0 100644
--- a/aspects/fluid/source/GunnsFluidAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorber.cpp
@@ -438,7 +438,7 @@ void GunnsFluidAdsorber::adsorb(const double dt, const double rate, const double
     /// - Adsorb trace compounds from the internal fluid.  Trace compounds adsorption efficiency is
     ///   reduced as the accumulated adsorbed mass approaches the maximum the adsorber can hold.
     if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
-        mInternalFluid->setMole(mFlux);
+        mInternalFluid->setMole(std::fabs(mFlux));
         tc->updateMasses();
         for (int i = 0; i < tc->getConfig()->mNTypes; ++i) {
             double adsorption_efficiency = mTcEfficiency[i];
-- 
2.43.0


From c901edf93f2422ebb8e7b094cbb146fd99ddbcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:22 +0000
Subject: [PATCH 20/34] fix: multi separator put separated fluids at the wrong
 ports and read past its fluids when ports and types differ

---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 7fcac39..6bddd82 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -568,8 +568,9 @@ void GunnsFluidMultiSeparator::step(const double dt __attribute__((unused)))
 
     /// - Build the link source vector.  Each separated fluid flow from last pass is added to its
     ///   respective exit port, and subtracted from the downstream port of the bulk through-flow.
-    mSourceVector[0] = 0.0;
-    mSourceVector[1] = 0.0;
+    for (int i=0; i<mNumPorts; ++i) {
+        mSourceVector[i] = 0.0;
+    }
     for (int i=0; i<mNumSepTypes; ++i) {
         if (mPotentialVector[0] >= mPotentialVector[1]) {
             mSourceVector[1] -= mSepBufferThru[i];
@@ -577,7 +578,7 @@ void GunnsFluidMultiSeparator::step(const double dt __attribute__((unused)))
             mSourceVector[0] -= mSepBufferThru[i];
         }
         mSepBufferExit[i] = mSepBufferThru[i];
-        mSourceVector[mSepPort[i]] = mSepBufferExit[i];
+        mSourceVector[mSepPort[i]] += mSepBufferExit[i];
     }
 }
 
@@ -683,11 +684,11 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
     /// - The separation fluids added to the exit nodes use the buffered separation flows from last
     ///   pass, which were reflected in the link source vector this pass.
-    for (int port=2, fluid=0; port<mNumPorts; ++port, ++fluid) {
-        mSepFluid[fluid].setTemperature(temperature);
-        const double mdot = mSepBufferExit[fluid] * mSepFluid[fluid].getMWeight();
+    for (int i=0; i<mNumSepTypes; ++i) {
+        mSepFluid[i].setTemperature(temperature);
+        const double mdot = mSepBufferExit[i] * mSepFluid[i].getMWeight();
         if (mdot > DBL_EPSILON) {
-            mNodes[port]->collectInflux(mdot, &mSepFluid[fluid]);
+            mNodes[mSepPort[i]]->collectInflux(mdot, &mSepFluid[i]);
         }
     }
 
-- 
2.43.0


From 9fce8d767b68d4dc5693c4ab2578ddc7f2df46fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 21/34] fix: multi adsorber left sorbed trace compounds in the
 stream unless a fluid compound was sorbed too

---
 .../source/GunnsFluidAdsorptionCompound.cpp   |  6 ++--
 .../fluid/source/GunnsFluidMultiAdsorber.cpp  | 30 +++++++++++--------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp b/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
index 6eee639..bd30ce1 100644
--- a/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
@@ -280,8 +280,10 @@ void GunnsFluidAdsorptionCompound::sorb(const double dt, const double tAvg, cons
 
         /// - Adsorption rate is the efficiency times the mass flow thru.
         double mdotThru = 0.0;
-        if (mTraceCompound and std::fabs(mdot) > m100EpsilonLimit) {
-            mdotThru = mFluid->getTraceCompounds()->getMasses()[mIndex];
+        if (mTraceCompound) {
+            if (std::fabs(mdot) > m100EpsilonLimit) {
+                mdotThru = mFluid->getTraceCompounds()->getMasses()[mIndex];
+            }
         } else {
             mdotThru = mFluid->getMassFraction(mIndex) * std::fabs(mdot);
         }
diff --git a/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp b/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
index eb8e97c..9c65495 100644
--- a/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
@@ -332,6 +332,23 @@ void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate
         ///   sorbant material, and desorptions are endothermic, pulling heat from the material.
         mWallHeatFlux += mSorptionHeat;
 
+        /// - Exchange trace compounds with the through-flow, or when there is no through-flow to
+        ///   carry them, directly with the outlet node.
+        if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
+            for (unsigned int i=0; i<mNCompounds; ++i) {
+                if (mCompounds[i].isTraceCompound()) {
+                    const int    index          = mCompounds[i].getIndex();
+                    const double adsorptionRate = mCompounds[i].mAdsorptionRate;
+                    if (std::fabs(mFlowRate) > m100EpsilonLimit) {
+                        tc->setMass(index, tc->getMasses()[index] - adsorptionRate);
+                    } else {
+                        static_cast<GunnsFluidNode*>(mNodes[exitPort])->collectTc(index, -adsorptionRate);
+                    }
+                }
+            }
+            tc->updateMoleFractions();
+        }
+
         if (std::fabs(fluidAdsorptionRate) > m100EpsilonLimit) {
 
             /// - Reset the internal fluid state.
@@ -348,19 +365,6 @@ void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate
             /// - Update output atmosphere mass, moles & fractions from constituent mass.
             mSorptionFluid->updateMass();
 
-            /// - Update trace compounds.
-            if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
-                for (unsigned int i=0; i<mNCompounds; ++i) {
-                    if (mCompounds[i].isTraceCompound()) {
-                        const int    index          = mCompounds[i].getIndex();
-                        const double inletRate      = tc->getMasses()[index];
-                        const double adsorptionRate = mCompounds[i].mAdsorptionRate;
-                        tc->setMass(index, inletRate - adsorptionRate);
-                    }
-                }
-                tc->updateMoleFractions();
-            }
-
             /// - Update output atmosphere temperature.
             mSorptionFluid->setTemperature(mInternalFluid->getTemperature());
 
-- 
2.43.0


From 329fe4c54510f6c05fdbc05ae93a8eae00d82c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 22/34] fix: multi adsorber sorbed trace compounds from stale
 mass flow rates

---
 .../fluid/source/GunnsFluidMultiAdsorber.cpp  | 19 +++++++++++++++++++
 .../fluid/source/GunnsFluidMultiAdsorber.hh   |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp b/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
index 9c65495..e2f45b4 100644
--- a/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
@@ -281,6 +281,25 @@ void GunnsFluidMultiAdsorber::restartModel()
     mSorptionHeat        = 0.0;
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]   dt         (s)     Time step.
+///
+/// @return      void
+///
+/// @details     Updates the trace compounds mass flow rates in the internal fluid to the current flow
+///              from the inlet node, for use by the sorption compounds, before transporting the flow.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsFluidMultiAdsorber::transportFlows(const double dt)
+{
+    GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
+    if (tc and std::fabs(mFlux) > DBL_EPSILON) {
+        mInternalFluid->setState(mNodes[determineSourcePort(mFlux, 0, 1)]->getOutflow());
+        mInternalFluid->setMole(std::fabs(mFlux));
+        tc->updateMasses();
+    }
+    GunnsFluidConductor::transportFlows(dt);
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in]   dt         (s)     Time step.
 /// @param[in]   flowRate   (kg/s)  Mass flow rate (not used).
diff --git a/aspects/fluid/source/GunnsFluidMultiAdsorber.hh b/aspects/fluid/source/GunnsFluidMultiAdsorber.hh
index dc08a61..f65358b 100644
--- a/aspects/fluid/source/GunnsFluidMultiAdsorber.hh
+++ b/aspects/fluid/source/GunnsFluidMultiAdsorber.hh
@@ -143,6 +143,8 @@ class GunnsFluidMultiAdsorber : public GunnsFluidConductor
                         std::vector<GunnsBasicLink*>&       networkLinks,
                         const int                           port0,
                         const int                           port1);
+        /// @brief  Transports fluid through this GunnsFluidMultiAdsorber.
+        virtual void transportFlows(const double dt);
         /// @brief  Updates the internal fluid of this GunnsFluidMultiAdsorber.
         virtual void updateFluid(const double dt, const double flowRate);
         /// @brief  Sets the thermal surface area of this GunnsFluidMultiAdsorber.
-- 
2.43.0


From 208a7b8958b2b16f5b4b125880bb4fd05293e105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:51 +0000
Subject: [PATCH 23/34] fix: reactor kept a stale source for the solver after
 its flow had stopped

---
 aspects/fluid/source/GunnsFluidReactor.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidReactor.cpp b/aspects/fluid/source/GunnsFluidReactor.cpp
index 37338fd..c8f5cac 100644
--- a/aspects/fluid/source/GunnsFluidReactor.cpp
+++ b/aspects/fluid/source/GunnsFluidReactor.cpp
@@ -761,6 +761,9 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
 {
     if (checkValidPortNumber(toPort) && checkValidPortNumber(fromPort)) {
 
+        mSourceVector[fromPort] = 0.0;
+        mSourceVector[toPort]   = 0.0;
+
         if (mFlowRate > m100EpsilonLimit) {
 
             /// - Move the the conduction flow with mInternalFluid from the upstream node to the
@@ -773,8 +776,6 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
             ///   respond to the affected total molar flow rate on the next pass.  The source vector
             ///   will be used next pass so there will be a small error in pressure, but mass will
             ///   be conserved and GUNNS washes out pressure errors over time.
-            mSourceVector[fromPort] = 0.0;
-            mSourceVector[toPort]   = 0.0;
             if (mProductsFlowRate > m100EpsilonLimit) {
                 mNodes[toPort]->collectInflux(mProductsFlowRate,  mProductsFluid);
                 mSourceVector[toPort] += mProductsFlowRate  / mProductsFluid->getMWeight();
@@ -796,8 +797,6 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
             ///   respond to the affected total molar flow rate on the next pass.  The source vector
             ///   will be used next pass so there will be a small error in pressure, but mass will
             ///   be conserved and GUNNS washes out pressure errors over time.
-            mSourceVector[fromPort] = 0.0;
-            mSourceVector[toPort]   = 0.0;
             if (mProductsFlowRate > m100EpsilonLimit) {
                 mNodes[fromPort]->collectInflux(mProductsFlowRate,  mProductsFluid);
                 mSourceVector[fromPort] += mProductsFlowRate  / mProductsFluid->getMWeight();
-- 
2.43.0


From 45b905c0528dfe0d71037f884cf51d040f3476fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 24/34] fix: reactor took the heat of reaction out of a reverse
 flow

---
 aspects/fluid/source/GunnsFluidReactor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidReactor.cpp b/aspects/fluid/source/GunnsFluidReactor.cpp
index c8f5cac..b6338a4 100644
--- a/aspects/fluid/source/GunnsFluidReactor.cpp
+++ b/aspects/fluid/source/GunnsFluidReactor.cpp
@@ -710,8 +710,9 @@ void GunnsFluidReactor::updateTemperature(const double dt __attribute__((unused)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidReactor::addRxnHeat(const double dt)
 {
-    const double newHeat = mFlowRate * mInternalFluid->getSpecificEnthalpy() + mProducedHeat / dt;
-    mInternalFluid->setTemperature(mInternalFluid->computeTemperature( newHeat / mFlowRate ));
+    const double rate    = std::fabs(mFlowRate);
+    const double newHeat = rate * mInternalFluid->getSpecificEnthalpy() + mProducedHeat / dt;
+    mInternalFluid->setTemperature(mInternalFluid->computeTemperature( newHeat / rate ));
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2ba9ac67c69fd9742f5c1e6370c4303b8eb35cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 25/34] fix: reactor kept giving heat to its wall after its
 flow had stopped

---
 aspects/fluid/source/GunnsFluidReactor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidReactor.cpp b/aspects/fluid/source/GunnsFluidReactor.cpp
index b6338a4..fb5079f 100644
--- a/aspects/fluid/source/GunnsFluidReactor.cpp
+++ b/aspects/fluid/source/GunnsFluidReactor.cpp
@@ -492,6 +492,8 @@ void GunnsFluidReactor::updateFluid(const double dt, const double flowrate __att
     /// - Zero the output flow rate and reset the reaction fluid.
     mReactantsFlowRate = 0.0;
     mProductsFlowRate  = 0.0;
+    mProducedHeat      = 0.0;
+    mWallHeatFlux      = 0.0;
     mReactantsFluid->resetState();
     mProductsFluid->resetState();
 
-- 
2.43.0


From 620074a712f915792f29de15a3fe166d598bca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 26/34] fix: membrane took more out of the stream than it holds
 when only its downstream end has the absorbed fluid

---
 aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp b/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp
index a544fc9..5bef1f5 100644
--- a/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp
+++ b/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp
@@ -364,8 +364,7 @@ void GunnsFluidSelectiveMembrane::step(const double dt __attribute__((unused)))
             mInternalSaturationP = intProps->getSaturationPressure(mNodes[upstreamPort]->getContent()->getTemperature());
             mInternalSaturated   = (mInternalPartialP[upstreamPort] > mInternalSaturationP);
         } else {
-            const double availableSource = 1.0e+6;
-            mMembraneFlowRate    = std::min(mMembraneDeltaP[downstreamPort] * mAbsorptionCoeff, availableSource);
+            mMembraneFlowRate    = std::min(mMembraneDeltaP[downstreamPort] * mAbsorptionCoeff, 0.0);
             mInternalSaturationP = intProps->getSaturationPressure(mNodes[downstreamPort]->getContent()->getTemperature());
             mInternalSaturated   = (mInternalPartialP[downstreamPort] > mInternalSaturationP);
         }
-- 
2.43.0


From 5225c32753526a41be9a515460d8df9ffffeadba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:53 +0000
Subject: [PATCH 27/34] fix: multi separator keeps trace compounds conserved

The fractions of trace compounds given to the downstream node were not updated
when only trace compounds are separated (the moles of the internal fluid were
never set) nor when only fluids are separated (the update was skipped), so
separated compounds also stayed in the flow, or compounds left with the
separated moles vanished.
---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 6bddd82..0babe98 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -699,7 +699,7 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
         /// - Move trace compounds from the bulk fluid to their exit nodes.
         GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
-        if (tc and mNumTcTypes > 0) {
+        if (tc) {
             const GunnsFluidTraceCompoundsConfigData* tcConfig = tc->getConfig();
             for (int i=0; i<tcConfig->mNTypes; i++) {
                 mWorkTcMassFlowRates[i] = flux * tc->getMoleFractions()[i] * tcConfig->mCompounds[i]->mMWeight;
@@ -739,7 +739,8 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
         /// - Update trace compound mole fractions relative to the moles remaining in the
         ///   internal fluid, before given to the downstream node.
-        if (tc and mNumTcTypes > 0) {
+        if (tc) {
+            mInternalFluid->setMole(exitFlux);
             tc->updateMoleFractions();
         }
         mNodes[downstreamPort]->collectInflux(exitFlux * mInternalFluid->getMWeight(), mInternalFluid);
-- 
2.43.0


From fc28ca2f12ef1959956862d0acf96b717032457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 28/34] fix: curve fits refuse ranges that hold a singularity
 of the fit

---
 .../math/approximation/QuadraticRootFit.cpp   |  4 +--
 ms-utils/math/approximation/RationalFit.cpp   | 26 +++++++++----------
 ms-utils/math/approximation/SutherlandFit.cpp |  2 +-
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/ms-utils/math/approximation/QuadraticRootFit.cpp b/ms-utils/math/approximation/QuadraticRootFit.cpp
index 8a74279..ee9c589 100644
--- a/ms-utils/math/approximation/QuadraticRootFit.cpp
+++ b/ms-utils/math/approximation/QuadraticRootFit.cpp
@@ -87,8 +87,8 @@ void QuadraticRootFit::init(const double a,    const double b,
     /// - Throw a TsInitializationException exception on a singularity (divide by 0) in the allegedly valid range.
     TS_GENERIC_IF_ERREX((std::fabs(b) < DBL_EPSILON), TsInitializationException,
                         "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
-    TS_GENERIC_IF_ERREX((minX + flt_epsilon < -mB / mC && -mB / mC < maxX - flt_epsilon), TsInitializationException,
-                        "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
+    TS_GENERIC_IF_ERREX((a * a + 4.0 * b * minX < 0.0 || a * a + 4.0 * b * maxX < 0.0), TsInitializationException,
+                        "Invalid Input Argument", "Square root of a negative number in the allegedly valid range.");
 
     /// - Initialize the coefficients with validated values.
     mA = -a;
diff --git a/ms-utils/math/approximation/RationalFit.cpp b/ms-utils/math/approximation/RationalFit.cpp
index 12dc091..96b0be2 100644
--- a/ms-utils/math/approximation/RationalFit.cpp
+++ b/ms-utils/math/approximation/RationalFit.cpp
@@ -6,8 +6,8 @@
     ((TsApproximation.o))
 */
 
+#include <algorithm>
 #include <cfloat>
-#include <cmath>
 
 #include "software/exceptions/TsHsException.hh"
 #include "software/exceptions/TsInitializationException.hh"
@@ -85,19 +85,17 @@ void RationalFit::init(const double a,    const double b,    const double c,
     mInitFlag = false;
 
     /// - Throw a TsInitializationException exception on a singularity (divide by 0) in the allegedly valid range.
-    const double discrim = c * c - 4.0 * d;
-    if (discrim > DBL_EPSILON) {
-        // Either check that both real roots are sufficiently outside valid range
-        const double arg = 0.5 * std::sqrt(discrim);
-        TS_GENERIC_IF_ERREX((minX <= -c + arg + DBL_EPSILON && -c + arg - DBL_EPSILON <= maxX), TsInitializationException,
-                            "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
-        TS_GENERIC_IF_ERREX((minX <= -c - arg + DBL_EPSILON && -c - arg - DBL_EPSILON <= maxX), TsInitializationException,
-                            "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
-    } else if (discrim > -DBL_EPSILON) {
-        // Or check that an (almost) single real root is sufficiently outside valid range
-        TS_GENERIC_IF_ERREX((minX <= -0.5 * c + DBL_EPSILON && -0.5 * c - DBL_EPSILON < maxX), TsInitializationException,
-                            "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
-    }
+    const double discrim  = c * c - 4.0 * d;
+    const double denMin   = 1.0 + (c + d * minX) * minX;
+    const double denMax   = 1.0 + (c + d * maxX) * maxX;
+    const double slopeMin = c + 2.0 * d * minX;
+    const double slopeMax = c + 2.0 * d * maxX;
+    // Check that the denominator has the same sign at both ends of the range
+    TS_GENERIC_IF_ERREX((std::min(denMin, denMax) < DBL_EPSILON && -DBL_EPSILON < std::max(denMin, denMax)), TsInitializationException,
+                        "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
+    // And that it does not reach 0 at a turning point in between
+    TS_GENERIC_IF_ERREX((discrim >= -DBL_EPSILON && slopeMin * slopeMax <= 0.0), TsInitializationException,
+                        "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
 
     /// - Initialize the coefficients with validated values.
     mA = a;
diff --git a/ms-utils/math/approximation/SutherlandFit.cpp b/ms-utils/math/approximation/SutherlandFit.cpp
index 6c880f3..e85db61 100644
--- a/ms-utils/math/approximation/SutherlandFit.cpp
+++ b/ms-utils/math/approximation/SutherlandFit.cpp
@@ -76,7 +76,7 @@ void SutherlandFit::init(const double a,    const double b,
     mInitFlag = false;
 
     /// - Throw a TsInitializationException exception on a singularity (divide by 0) in the allegedly valid range.
-    TS_GENERIC_IF_ERREX((b + mMinX < DBL_EPSILON && -DBL_EPSILON < b - mMaxX), TsInitializationException,
+    TS_GENERIC_IF_ERREX((b + mMinX < DBL_EPSILON && -DBL_EPSILON < b + mMaxX), TsInitializationException,
                         "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
 
     /// - Initialize the coefficients with validated values.
-- 
2.43.0


From 8bf9cb0db4a8435406a9b36dae70f2b3ffdec7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:36 +0000
Subject: [PATCH 29/34] fix: interpolation tables keep values with descending
 axes, report ready, and cover their value range

---
 .../math/approximation/TsBilinearInterpolator.cpp   | 13 +++++++++----
 .../approximation/TsBilinearInterpolatorReverse.cpp |  3 ++-
 .../math/approximation/TsLinearInterpolator.cpp     |  3 +++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolator.cpp b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
index 5139e0a..c9f89ce 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
@@ -200,9 +200,10 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     if (x[1] < x[0]) {
         /// - X array is strictly descending,so make ascending and change order of
         ///   Z array to reflect changes made to X.
-        for (int i = 0; i < mM/2+1; ++i) {
+        for (int i = 0; i < mM; ++i) {
             mX[i] = x[mM - i - 1];
-            mX[mM - i - 1] = x[i];
+        }
+        for (int i = 0; i < mM/2; ++i) {
             for (int j = 0; j < mN; ++j) {
                 std::swap(mZ[i][j], mZ[mM - i - 1][j]);
             }
@@ -218,9 +219,10 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     if (y[1] < y[0]) {
         /// - Y array is strictly descending,so make ascending and change order of
         ///   Z array to reflect changes made to X.
-        for (int i = 0; i < mN/2+1; ++i) {
+        for (int i = 0; i < mN; ++i) {
             mY[i] = y[mN - i - 1];
-            mY[mN - i - 1] = y[i];
+        }
+        for (int i = 0; i < mN/2; ++i) {
             for (int j = 0; j < mM; ++j) {
                 std::swap(mZ[j][i], mZ[j][mN - i - 1]);
             }
@@ -262,6 +264,9 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     mN = n;
     mI = 0;
     mJ = 0;
+
+    /// - Set the flag to indicate successful initialization.
+    mInitFlag = true;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp b/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
index befb6d3..625ef9b 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
@@ -80,7 +80,8 @@ void TsBilinearInterpolatorReverse::init()
         for (int j=0; j<mN; ++j) {
             if (mZ[i][j] < mMinY) {
                 mMinY = mZ[i][j];
-            } else if (mZ[i][j] > mMaxY) {
+            }
+            if (mZ[i][j] > mMaxY) {
                 mMaxY = mZ[i][j];
             }
         }
diff --git a/ms-utils/math/approximation/TsLinearInterpolator.cpp b/ms-utils/math/approximation/TsLinearInterpolator.cpp
index eed1a52..d283c6e 100644
--- a/ms-utils/math/approximation/TsLinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsLinearInterpolator.cpp
@@ -177,6 +177,9 @@ void TsLinearInterpolator::init(const double *x, const double *z, const int n,
         TS_GENERIC_ERREX(TsInitializationException, "Invalid Input Argument", "independent variable (x) array does not cover valid range.");
     }
 
+    /// - Start the next search from the first cell.
+    mI = 0;
+
     /// - Set the flag to indicate successful initialization.
     mInitFlag = true;
 
-- 
2.43.0


From 707863d63bfa490a06ffe47d0fd1ee34831f866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:28 +0000
Subject: [PATCH 30/34] fix: rigid body equations take all moments about the
 body origin when the centre of mass is offset

---
 aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp b/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
index 5c91331..955240c 100755
--- a/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
+++ b/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
@@ -247,6 +247,11 @@ void GunnsDynSingleRigidStateDeriv::buildSourceVector()
         mSourceVector[0] -= mGyroForce[0];
         mSourceVector[1] -= mGyroForce[1];
         mSourceVector[2] -= mGyroForce[2];
+        /// - The rotational rows are about the body frame origin, so include the moment about the
+        ///   origin of the net force at the CM.
+        double moment[3];
+        GunnsDynUtils::crossV3(moment, mMassProps.mCM, mSourceVector);
+        GunnsDynUtils::addV(&mSourceVector[3], &mSourceVector[3], moment, 3);
     } else {
         GunnsDynUtils::zeroV(mGyroForce, 3);
     }
-- 
2.43.0


From 2d72d7ee3fc866e0d9af7ef60b10b97b48383fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:49 +0000
Subject: [PATCH 31/34] fix: fluid flow orchestrator is not stuck when the
 first pass completes nodes only

---
 core/GunnsFluidFlowOrchestrator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/GunnsFluidFlowOrchestrator.cpp b/core/GunnsFluidFlowOrchestrator.cpp
index 2095f6e..ed2dfa8 100755
--- a/core/GunnsFluidFlowOrchestrator.cpp
+++ b/core/GunnsFluidFlowOrchestrator.cpp
@@ -99,12 +99,14 @@ void GunnsFluidFlowOrchestrator::update(const double dt)
 {
     /// - Call computeFlows on all links.  The links will compute their molar flow rates, determine
     ///   flow directions relative to the nodes, and schedule outflows with their source nodes.
-    /// - Initially flag all links as incomplete.
+    /// - Initially flag all links as incomplete.  The incomplete link count starts above the number of
+    ///   links so that the first pass, which may complete nodes but no links yet, is not mistaken for
+    ///   being stuck.
     for (int link = 0; link < mNumLinks; ++link) {
         mLinks[link]->computeFlows(dt);
         mLinkStates[link] = false;
     }
-    mNumIncompleteLinks = mNumLinks;
+    mNumIncompleteLinks = mNumLinks + 1;
 
     /// - Initially flag all nodes as incomplete, except for the Ground node which is always
     ///   complete.
-- 
2.43.0


From 4ecf0b211a952aac30adc5e475d8a1d16a650be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:18 +0000
Subject: [PATCH 32/34] fix: solar array regulators keep the rebuild request of
 a moved port

---
 aspects/electrical/SolarArray/GunnsElectPvRegConv.hh   | 2 +-
 aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh b/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh
index 974a719..5f901f0 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh
+++ b/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh
@@ -356,7 +356,7 @@ inline void GunnsElectPvRegConv::updateRegulatedVoltage()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 inline void GunnsElectPvRegConv::buildAdmittanceMatrix()
 {
-    mAdmittanceUpdate    = mStateAdmittance[mState] != mAdmittanceMatrix[0];
+    mAdmittanceUpdate    = mAdmittanceUpdate or (mStateAdmittance[mState] != mAdmittanceMatrix[0]);
     mAdmittanceMatrix[0] = mStateAdmittance[mState];
 }
 
diff --git a/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp b/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
index f5b5e7d..d91898d 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
+++ b/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
@@ -504,7 +504,8 @@ void GunnsElectPvRegShunt::buildAdmittanceMatrix()
 {
     switch (mState) {
         case REG: {
-            mAdmittanceUpdate = (mAdmittanceMatrix[0] != mInputConductance) or
+            mAdmittanceUpdate = mAdmittanceUpdate or
+                                (mAdmittanceMatrix[0] != mInputConductance) or
                                 (mAdmittanceMatrix[3] != mOutputConductance);
             mAdmittanceMatrix[0] = mInputConductance;
             mAdmittanceMatrix[1] = 0.0;
@@ -512,7 +513,8 @@ void GunnsElectPvRegShunt::buildAdmittanceMatrix()
             mAdmittanceMatrix[3] = mOutputConductance;
         } break;
         case SAG: {
-            mAdmittanceUpdate = (mAdmittanceMatrix[0] != mOutputConductance) or
+            mAdmittanceUpdate = mAdmittanceUpdate or
+                                (mAdmittanceMatrix[0] != mOutputConductance) or
                                 (mAdmittanceMatrix[3] != mOutputConductance);
             mAdmittanceMatrix[0] =  mOutputConductance;
             mAdmittanceMatrix[1] = -mOutputConductance;
@@ -520,7 +522,8 @@ void GunnsElectPvRegShunt::buildAdmittanceMatrix()
             mAdmittanceMatrix[3] =  mOutputConductance;
         } break;
         default: {  // OFF or invalid
-            mAdmittanceUpdate = (mAdmittanceMatrix[0] != mInputConductance) or
+            mAdmittanceUpdate = mAdmittanceUpdate or
+                                (mAdmittanceMatrix[0] != mInputConductance) or
                                 (mAdmittanceMatrix[3] != 0.0);
             mAdmittanceMatrix[0] = mInputConductance;
             mAdmittanceMatrix[1] = 0.0;
-- 
2.43.0


From 1c37abfe98412880a3e50125a07ad53b60dae60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:14 +0000
Subject: [PATCH 33/34] fix: solar array string has no maximum power without
 light

---
 aspects/electrical/SolarArray/GunnsElectPvString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/SolarArray/GunnsElectPvString.cpp b/aspects/electrical/SolarArray/GunnsElectPvString.cpp
index 5cdf07c..d7feb47 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvString.cpp
+++ b/aspects/electrical/SolarArray/GunnsElectPvString.cpp
@@ -835,7 +835,7 @@ void GunnsElectPvString::updateMpp()
     /// - Total electrical power, shunt current and series current.
     const double power = mShuntVoltageDrop * mEqProps->mIL;
     const double ish   = mShuntVoltageDrop / mEqProps->mRsh;
-    const double is    = mEqProps->mIL - ish;
+    const double is    = std::max(0.0, mEqProps->mIL - ish);
 
     /// - Maximum Power Point.
     mMpp.mPower = std::max(0.0, power - mShuntVoltageDrop*ish - is*mSeriesVoltageDrop
-- 
2.43.0


From acf83ff92d8f630c82b92e8f6c18e141f134851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 34/34] fix: open user load switch drops the conductance of an
 ended loads override

---
 aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp  | 5 +++++
 aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
index cd1e99f..caa879d 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
@@ -276,6 +276,11 @@ void GunnsElectUserLoadSwitch::buildConductance()
             mAdmittanceUpdate = true;
         }
     } else {
+        /// - Remove what is left of the loads override, since an open switch has no new conductance.
+        if (mAdmittanceMatrix[3] != mAdmittanceMatrix[0]) {
+            mAdmittanceMatrix[3] = mAdmittanceMatrix[0];
+            mAdmittanceUpdate    = true;
+        }
         GunnsBasicConductor::buildConductance();
     }
     buildSource();
diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
index 7718a46..728d15d 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
@@ -311,6 +311,11 @@ void GunnsElectUserLoadSwitch2::buildConductance()
             mAdmittanceUpdate = true;
         }
     } else {
+        /// - Remove what is left of the loads override, since an open switch has no new conductance.
+        if (mAdmittanceMatrix[3] != mAdmittanceMatrix[0]) {
+            mAdmittanceMatrix[3] = mAdmittanceMatrix[0];
+            mAdmittanceUpdate    = true;
+        }
         GunnsBasicConductor::buildConductance();
     }
     buildSource();
-- 
2.43.0

