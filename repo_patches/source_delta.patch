From c3f65d71aaec9bce2d54fd4104e45edcbc7e513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 01/25] fix: planar velocity control Hessian uses the current
 point position and the right multipliers

---
 src/private/PlanarVelocityControlConstraints.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/private/PlanarVelocityControlConstraints.cpp b/src/private/PlanarVelocityControlConstraints.cpp
index a8b3685..f89a5d3 100644
--- a/src/private/PlanarVelocityControlConstraints.cpp
+++ b/src/private/PlanarVelocityControlConstraints.cpp
@@ -172,12 +172,13 @@ bool PlanarVelocityControlConstraints::constraintSecondPartialDerivativeWRTState
                                                                                  iDynTree::MatrixDynSize &hessian)
 {
     m_pimpl->stateVariables = state;
+    m_pimpl->pointPosition = m_pimpl->stateVariables(m_pimpl->positionPointRange);
 
     unsigned int positionIndex = static_cast<unsigned int>(m_pimpl->positionPointRange.offset + 2);
     double deltaDoubleDerivative = m_pimpl->planarVelocityActivation.evalDoubleDerivative(m_pimpl->pointPosition(2));
 
-    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(1)) * m_pimpl->maximumDerivatives(0)) +
-                                             ((lambda(2) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
+    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(2)) * m_pimpl->maximumDerivatives(0)) +
+                                             ((lambda(1) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
 
     return true;
 }
-- 
2.43.0


From 80f54ba3fba55a4e7d836c55a555d2fd70f7ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 02/25] fix: missing force factor in the phantom forces cost
 Hessian

---
 src/private/PhantomForcesCost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/PhantomForcesCost.cpp b/src/private/PhantomForcesCost.cpp
index 23dede1..26dc486 100644
--- a/src/private/PhantomForcesCost.cpp
+++ b/src/private/PhantomForcesCost.cpp
@@ -134,7 +134,7 @@ bool PhantomForcesCost::costSecondPartialDerivativeWRTState(double /*time*/, con
 
     double phantomForce = (1- delta) * fz;
 
-    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * deltaDoubleDerivative;
+    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * deltaDoubleDerivative * fz;
     partialDerivative(fzCol, fzCol) = (1- delta) * (1- delta);
     partialDerivative(fzCol, pzCol) = -2.0 * phantomForce * deltaDerivative;
     partialDerivative(pzCol, fzCol) = partialDerivative(fzCol, pzCol);
-- 
2.43.0


From 3053148f14e4d34bab0979d703381f0aa5d8cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 03/25] fix: declare the normal force dissipation term in the
 dynamics state Jacobian sparsity

---
 src/private/DynamicalConstraints.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/DynamicalConstraints.cpp b/src/private/DynamicalConstraints.cpp
index c497ef1..534e56d 100644
--- a/src/private/DynamicalConstraints.cpp
+++ b/src/private/DynamicalConstraints.cpp
@@ -264,6 +264,7 @@ public:
             stateJacobianSparsity.addDenseBlock(static_cast<size_t>(foot.positionPoints[i].offset),
                                                 static_cast<size_t>(foot.positionPoints[i].offset) + 2, 2, 1);
             stateJacobianSparsity.add(static_cast<size_t>(foot.forcePoints[i].offset + 2), static_cast<size_t>(foot.positionPoints[i].offset + 2));
+            stateJacobianSparsity.add(static_cast<size_t>(foot.forcePoints[i].offset + 2), static_cast<size_t>(foot.forcePoints[i].offset + 2));
 
             stateHessianSparsity.addDenseBlock(comPositionRange, foot.forcePoints[i]);
             stateHessianSparsity.addDenseBlock(foot.forcePoints[i], comPositionRange);
-- 
2.43.0


From db45c3537dfae7251ed2b8aa6e210d38578e8a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 04/25] fix: frame angular velocity cost takes the base and
 joint velocities from the control

---
 src/private/FrameAngularVelocityCost.cpp | 47 ++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/private/FrameAngularVelocityCost.cpp b/src/private/FrameAngularVelocityCost.cpp
index 89c34fa..a82ae76 100644
--- a/src/private/FrameAngularVelocityCost.cpp
+++ b/src/private/FrameAngularVelocityCost.cpp
@@ -35,7 +35,8 @@ public:
 
     levi::Expression asExpression, quaternionDerivative, jointsDerivative, baseQuaternionVelocityDerivative, jointsVelocityDerivative,
         quaternionHessian, jointsHessian, quaternionJointsHessian, quaternionQuaternionDerivativeHessian,
-        quaternionJointsVelocityHessian, jointsQuaternionDerivativeHessian, jointsJointsVelocityHessian;
+        quaternionJointsVelocityHessian, jointsQuaternionDerivativeHessian, jointsJointsVelocityHessian,
+        quaternionDerivativeHessian, jointsVelocityHessian, quaternionDerivativeJointsVelocityHessian;
 
     std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingRotation> desiredTrajectory;
 
@@ -55,6 +56,10 @@ public:
         robotState.base_position = basePosition;
 
         robotState.s = stateVariables(jointsPositionRange);
+
+        robotState.base_quaternionVelocity = controlVariables(baseQuaternionDerivativeRange);
+        robotState.s_dot = controlVariables(jointsVelocityRange);
+
         sharedKinDyn->updateRobotState(robotState);
 
     }
@@ -86,6 +91,9 @@ public:
         quaternionJointsVelocityHessian = quaternionDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
         jointsQuaternionDerivativeHessian = jointsDerivative.getColumnDerivative(0, expressionsServer->baseQuaternionVelocity());
         jointsJointsVelocityHessian = jointsDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
+        quaternionDerivativeHessian = baseQuaternionVelocityDerivative.getColumnDerivative(0, expressionsServer->baseQuaternionVelocity());
+        jointsVelocityHessian = jointsVelocityDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
+        quaternionDerivativeJointsVelocityHessian = baseQuaternionVelocityDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
     }
 
 };
@@ -145,7 +153,10 @@ FrameAngularVelocityCost::FrameAngularVelocityCost(const VariablesLabeller &stat
     m_pimpl->mixedHessianSparsity.addDenseBlock(m_pimpl->jointsPositionRange, m_pimpl->baseQuaternionDerivativeRange);
     m_pimpl->mixedHessianSparsity.addDenseBlock(m_pimpl->jointsPositionRange, m_pimpl->jointsVelocityRange);
 
-    m_pimpl->controlHessianSparsity.clear();
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->baseQuaternionDerivativeRange, m_pimpl->baseQuaternionDerivativeRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->baseQuaternionDerivativeRange, m_pimpl->jointsVelocityRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->jointsVelocityRange, m_pimpl->baseQuaternionDerivativeRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->jointsVelocityRange, m_pimpl->jointsVelocityRange);
 
 }
 
@@ -163,6 +174,9 @@ FrameAngularVelocityCost::~FrameAngularVelocityCost()
     m_pimpl->quaternionJointsVelocityHessian.clearDerivativesCache();
     m_pimpl->jointsQuaternionDerivativeHessian.clearDerivativesCache();
     m_pimpl->jointsJointsVelocityHessian.clearDerivativesCache();
+    m_pimpl->quaternionDerivativeHessian.clearDerivativesCache();
+    m_pimpl->jointsVelocityHessian.clearDerivativesCache();
+    m_pimpl->quaternionDerivativeJointsVelocityHessian.clearDerivativesCache();
 }
 
 bool FrameAngularVelocityCost::setDesiredRotationTrajectory(std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingRotation> desiredRotationTrajectory)
@@ -305,9 +319,34 @@ bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTState(double time,
     return true;
 }
 
-bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTControl(double /*time*/, const iDynTree::VectorDynSize &/*state*/,
-                                                                 const iDynTree::VectorDynSize &/*control*/, iDynTree::MatrixDynSize &/*partialDerivative*/)
+bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTControl(double time, const iDynTree::VectorDynSize &state,
+                                                                     const iDynTree::VectorDynSize &control,
+                                                                     iDynTree::MatrixDynSize &partialDerivative)
 {
+    m_pimpl->stateVariables = state;
+    m_pimpl->controlVariables = control;
+
+    m_pimpl->sharedKinDyn = m_pimpl->timedSharedKinDyn->get(time);
+
+    m_pimpl->updateRobotState();
+    m_pimpl->expressionsServer->updateRobotState(time);
+
+    iDynTree::iDynTreeEigenMatrixMap hessianMap = iDynTree::toEigen(partialDerivative);
+
+    const iDynTree::IndexRange& quaternionRange = m_pimpl->baseQuaternionDerivativeRange;
+    const iDynTree::IndexRange& jointsRange = m_pimpl->jointsVelocityRange;
+
+    hessianMap.block<4,4>(quaternionRange.offset, quaternionRange.offset) = m_pimpl->quaternionDerivativeHessian.evaluate();
+
+    hessianMap.block(jointsRange.offset, jointsRange.offset, jointsRange.size, jointsRange.size) =
+        m_pimpl->jointsVelocityHessian.evaluate();
+
+    const Eigen::MatrixXd& mixedHessian = m_pimpl->quaternionDerivativeJointsVelocityHessian.evaluate();
+
+    hessianMap.block(quaternionRange.offset, jointsRange.offset, quaternionRange.size, jointsRange.size) = mixedHessian;
+
+    hessianMap.block(jointsRange.offset, quaternionRange.offset, jointsRange.size, quaternionRange.size) = mixedHessian.transpose();
+
     return true;
 }
 
-- 
2.43.0


From 2297512aa9c2606f0c3608c81c1278dc09e5981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 05/25] fix: foot yaw cost adds the nominal direction of the
 foot edge to the desired yaw

---
 src/private/FootYawCost.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/private/FootYawCost.cpp b/src/private/FootYawCost.cpp
index 2e85abf..171a227 100644
--- a/src/private/FootYawCost.cpp
+++ b/src/private/FootYawCost.cpp
@@ -136,7 +136,7 @@ bool FootYawCost::costEvaluation(double time, const iDynTree::VectorDynSize &sta
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
@@ -160,7 +160,7 @@ bool FootYawCost::costFirstPartialDerivativeWRTState(double time, const iDynTree
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     iDynTree::Vector3 currentTopBottomDistance, currentLeftRightDistance;
@@ -196,7 +196,7 @@ bool FootYawCost::costSecondPartialDerivativeWRTState(double time, const iDynTre
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
-- 
2.43.0


From 42f946b39b60e2ad6650ba40f0b253e72e232615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 06/25] fix: orientation error of the frame angular velocity
 cost expressed in the same frame as the velocity

---
 src/private/FrameAngularVelocityCost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/FrameAngularVelocityCost.cpp b/src/private/FrameAngularVelocityCost.cpp
index a82ae76..805da98 100644
--- a/src/private/FrameAngularVelocityCost.cpp
+++ b/src/private/FrameAngularVelocityCost.cpp
@@ -71,7 +71,7 @@ public:
         levi::Expression frameRotation = expressionsServer->baseRotation() *
             expressionsServer->relativeRotation(timedSharedKinDyn->getFloatingBase(), desiredFrameName);
 
-        levi::Expression rotationErrorExpression = frameRotation * desiredRotation.transpose();
+        levi::Expression rotationErrorExpression = desiredRotation.transpose() * frameRotation;
 
         levi::Expression skewError = 0.5 * (rotationErrorExpression - rotationErrorExpression.transpose());
 
-- 
2.43.0


From 6bd845f58b3b5f5a18e5b36e3e37e2ac7f892c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 07/25] fix: base twist expression uses the angular velocity in
 base coordinates

---
 src/private/ExpressionsServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 147bfe0..548c16e 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -80,7 +80,7 @@ ExpressionsServer::ExpressionsServer(std::shared_ptr<TimelySharedKinDynComputati
     m_pimpl->s_dot = levi::Variable(timelySharedKinDyn->model().getNrOfDOFs(), "s_dot");
 
     levi::Expression minusQuaternion = -quaternionImaginary;
-    levi::Expression angularVelocity = 2.0 * (minusQuaternion * m_pimpl->baseQuaternionVelocity(0,0) + (quaternionReal(0,0) * levi::Identity(3,3) - minusQuaternion.skew()) * m_pimpl->baseQuaternionVelocity.block(1,0,3,1));
+    levi::Expression angularVelocity = 2.0 * (minusQuaternion * m_pimpl->baseQuaternionVelocity(0,0) + (quaternionReal(0,0) * levi::Identity(3,3) + minusQuaternion.skew()) * m_pimpl->baseQuaternionVelocity.block(1,0,3,1));
 
     m_pimpl->baseTwist = levi::Expression::Vertcat(m_pimpl->baseLinearVelocity, angularVelocity, "baseTwist");
 
-- 
2.43.0


From f56378575355eac1ed6dfbe2b85e9693f45471a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 08/25] fix: Settings checks the trajectory of the force
 derivative cost instead of the desired rotation

---
 src/Settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 01be9c6..8949479 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -126,7 +126,7 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     }
 
     if (inputSettings.forceDerivativeCostActive) {
-        errors += checkError(!(inputSettings.desiredRotationTrajectory), " The desiredRotationTrajectory is empty.");
+        errors += checkError(!(inputSettings.desiredForceDerivativeTrajectory), "The desiredForceDerivativeTrajectory is empty.");
         errors += checkError(inputSettings.forceDerivativeWeights.size() != 3, "The forceDerivativeWeights is expected to be three dimensional.");
     }
 
-- 
2.43.0


From bbfdc8d666c254423882f34c5854ee289b576acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 09/25] fix: Settings reads out of bounds when the two sets of
 joint limits have different sizes

---
 src/Settings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 8949479..4a1fb7d 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -82,7 +82,8 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     for (size_t j = 0; j < inputSettings.jointsLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsLimits[j].first > inputSettings.jointsLimits[j].second,
                              "The lower limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
-
+    }
+    for (size_t j = 0; j < inputSettings.jointsVelocityLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsVelocityLimits[j].first > inputSettings.jointsVelocityLimits[j].second,
                              "The lower velocity limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
     }
-- 
2.43.0


From 110f91e54ddec29f51d3741a68201b0652021d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 10/25] fix: Settings accepts active costs with missing
 references or weights of the wrong size

---
 src/Settings.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 4a1fb7d..4ae1ae6 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -105,6 +105,7 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
 
     if (inputSettings.comVelocityCostActive) {
         errors += checkError(inputSettings.comVelocityWeights.size() != 3, "The comVelocityWeights vector is expected to be three dimensional.");
+        errors += checkError(!inputSettings.comVelocityCostActiveRange.isValid(), "The specified time range for the CoM velocity cost is not valid.");
         errors += checkError(!inputSettings.desiredCoMVelocityTrajectory, "The desiredCoMVelocityTrajectory is empty.");
     }
 
@@ -121,6 +122,34 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
                              "The jointRegularizationWeights size does not match the robot DoFs.");
     }
 
+    if (inputSettings.jointsVelocityCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsVelocityTrajectory), "The desiredJointsVelocityTrajectory is empty.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+    }
+
+    if (inputSettings.jointsVelocityForPosturalCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsTrajectory), "The desiredJointsTrajectory is empty.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+        errors += checkError(inputSettings.jointsRegularizationWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointRegularizationWeights size does not match the robot DoFs.");
+    }
+
+    if (inputSettings.frameAngularVelocityCostActive) {
+        errors += checkError(!(inputSettings.robotModel.isFrameNameUsed(inputSettings.frameForOrientationCost)),
+                             "The frameForOrientationCost does not appear in the model.");
+        errors += checkError(!inputSettings.desiredRotationTrajectory, "The desiredRotationTrajectory is empty.");
+    }
+
+    if (inputSettings.leftFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredLeftFootYaw, "The desiredLeftFootYaw is empty.");
+    }
+
+    if (inputSettings.rightFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredRightFootYaw, "The desiredRightFootYaw is empty.");
+    }
+
     if (inputSettings.staticTorquesCostActive) {
         errors += checkError(inputSettings.staticTorquesCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
                              "The staticTorquesCostWeights size does not match the robot DoFs.");
-- 
2.43.0


From bce2eee968ff2868e9d8408e7b68eeadb147f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 11/25] fix: Solver weighs the force ratio costs with the force
 mean weight

---
 src/Solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 1356e7a..85b3f4f 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -464,7 +464,7 @@ public:
             for (size_t i = 0; i < st.leftPointsPosition.size(); ++i) {
                 costs.leftForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Left", i);
                 costs.leftForceRatios[i]->setDesiredRatio(st.desiredLeftRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.leftForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.leftForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
@@ -473,7 +473,7 @@ public:
             for (size_t i = 0; i < st.rightPointsPosition.size(); ++i) {
                 costs.rightForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Right", i);
                 costs.rightForceRatios[i]->setDesiredRatio(st.desiredRightRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.rightForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.rightForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
-- 
2.43.0


From c15cb4e7553f2b0e12b7335bb13c9cda411b0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 12/25] fix: TimelySharedKinDynComputations keeps the old
 timings when the new ones are fewer

---
 src/private/TimelySharedKinDynComputations.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/private/TimelySharedKinDynComputations.cpp b/src/private/TimelySharedKinDynComputations.cpp
index 7961d85..009ee33 100644
--- a/src/private/TimelySharedKinDynComputations.cpp
+++ b/src/private/TimelySharedKinDynComputations.cpp
@@ -150,7 +150,10 @@ bool TimelySharedKinDynComputations::setTimings(const std::vector<double> &timin
         }
     }
 
-    m_timingsSet = true;
+    m_pointerContainer.resize(timings.size());
+    m_previousIndex = 0;
+
+    m_timingsSet = !timings.empty();
     return true;
 }
 
-- 
2.43.0


From 7b3263d23209ca75b9fe32d35ef186917a112d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 13/25] fix: Solver ignores the gravity and the floating base
 of the settings

---
 src/Solver.cpp                       | 9 +++++++++
 src/private/DynamicalConstraints.cpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 85b3f4f..0c80272 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1440,6 +1440,15 @@ bool Solver::specifySettings(const Settings &settings)
         return false;
     }
 
+    m_pimpl->timelySharedKinDyn->setGravity(st.gravity);
+
+    ok = m_pimpl->timelySharedKinDyn->setFloatingBase(st.floatingBaseName);
+
+    if (!ok) {
+        std::cerr << "[ERROR][Solver::specifySettings] Failed to set the floating base." << std::endl;
+        return false;
+    }
+
     m_pimpl->expressionsServer = std::make_shared<ExpressionsServer>(m_pimpl->timelySharedKinDyn);
 
     HyperbolicTangent velocityActivationXY;
diff --git a/src/private/DynamicalConstraints.cpp b/src/private/DynamicalConstraints.cpp
index 534e56d..ef37767 100644
--- a/src/private/DynamicalConstraints.cpp
+++ b/src/private/DynamicalConstraints.cpp
@@ -350,7 +350,7 @@ DynamicalConstraints::DynamicalConstraints(const VariablesLabeller &stateVariabl
 
 
     m_pimpl->gravityVector.zero();
-    m_pimpl->gravityVector(2) = -9.81;
+    iDynTree::toEigen(m_pimpl->gravityVector).topRows<3>() = iDynTree::toEigen(timelySharedKinDyn->gravity());
 
 //    m_pimpl->stateJacobianBuffer.resize(static_cast<unsigned int>(stateVariables.size()), static_cast<unsigned int>(stateVariables.size()));
 //    m_pimpl->stateJacobianBuffer.zero();
-- 
2.43.0


From eebdd1ff647725b81c404f3b77d52bac8475bdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 14/25] fix: PositionReferenceGenerator returns uninitialised
 memory when no position is active

---
 src/PositionReferenceGenerator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PositionReferenceGenerator.cpp b/src/PositionReferenceGenerator.cpp
index 2f2673e..93549a5 100644
--- a/src/PositionReferenceGenerator.cpp
+++ b/src/PositionReferenceGenerator.cpp
@@ -99,6 +99,7 @@ const iDynTree::VectorDynSize &TimeVaryingWeight::get(double time, bool &isValid
 
 PositionReference::PositionReference(std::shared_ptr<PositionReferenceGeneratorData> data) {
     m_data = data;
+    m_zeroPosition.zero();
 }
 
 const iDynTree::Position &PositionReference::get(double time, bool &isValid) {
-- 
2.43.0


From 7022dccdf05e8cba2692d7aa7b37b81689008e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 15/25] fix: TranslatingCoMStateGuess hides an invalid center
 of mass reference

---
 src/Utilities.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 332a2a9..9131b70 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -221,8 +221,6 @@ State &TranslatingCoMStateGuess::get(double time, bool &isValid) {
         iDynTree::toEigen(m_state.rightContactPointsState[i].pointPosition) = iDynTree::toEigen(m_initialState.rightContactPointsState[i].pointPosition) + iDynTree::toEigen(comDifference);
     }
 
-    isValid = true;
-
     m_state.time = time;
     return m_state;
 }
-- 
2.43.0


From 77735c2f767cc646fde2edee0e3337b89be6c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 16/25] fix: joint derivative of adjoint transforms of
 additional frames

---
 src/private/AdjointTransformExpression.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/AdjointTransformExpression.cpp b/src/private/AdjointTransformExpression.cpp
index 85ae8c4..02728a8 100644
--- a/src/private/AdjointTransformExpression.cpp
+++ b/src/private/AdjointTransformExpression.cpp
@@ -251,7 +251,9 @@ public:
             parentLink = traversal.getParentLinkIndexFromJointIndex(model, jointPtr->getIndex());
 
             jointsDerivative[jointIndex] =
-                expressionsServer->adjointTransform(baseFrame, targetFrame) * expressionsServer->motionSubSpaceAsCrossProduct(jointPtr->getIndex(), parentLink, targetLink);
+                expressionsServer->adjointTransform(baseFrame, model.getLinkName(targetLink)) *
+                expressionsServer->motionSubSpaceAsCrossProduct(jointPtr->getIndex(), parentLink, targetLink) *
+                expressionsServer->adjointTransform(model.getLinkName(targetLink), targetFrame);
 
             m_nonZeros.push_back(jointIndex);
 
@@ -377,7 +379,9 @@ public:
             parentLink = traversal.getParentLinkIndexFromJointIndex(model, jointPtr->getIndex());
 
             jointsDerivative[jointIndex] =
-                expressionsServer->adjointTransformWrench(baseFrame, targetFrame) * expressionsServer->motionSubSpaceAsCrossProductWrench(jointPtr->getIndex(), parentLink, targetLink);
+                expressionsServer->adjointTransformWrench(baseFrame, model.getLinkName(targetLink)) *
+                expressionsServer->motionSubSpaceAsCrossProductWrench(jointPtr->getIndex(), parentLink, targetLink) *
+                expressionsServer->adjointTransformWrench(model.getLinkName(targetLink), targetFrame);
 
             m_nonZeros.push_back(jointIndex);
 
-- 
2.43.0


From 5c58aa1066bd7617afa69bad0cedc3b4de362496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 17/25] fix: memo keys of the expressions server identify their
 arguments

---
 src/private/ExpressionsServer.cpp | 62 ++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 548c16e..95c86e7 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -27,6 +27,14 @@ using namespace DynamicalPlanner::Private;
 using ExpressionMap = std::unordered_map<std::string, levi::Expression>;
 using TransformsMap = std::unordered_map<std::string, TransformExpression>;
 
+namespace {
+    //The length makes sure that two different pairs of names never result in the same key.
+    std::string framesKey(const std::string& first, const std::string& second)
+    {
+        return std::to_string(first.size()) + "_" + first + second;
+    }
+}
+
 class ExpressionsServer::Implementation {
 public:
     std::shared_ptr<TimelySharedKinDynComputations> timelySharedKinDyn;
@@ -265,13 +273,13 @@ levi::Expression ExpressionsServer::comInBaseHessian(long column)
 
 levi::Expression ExpressionsServer::adjointTransform(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->adjointMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->adjointMap.find(framesKey(baseFrame, targetFrame));
 
     if (element != m_pimpl->adjointMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesKey(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(6,6);
         } else {
@@ -285,7 +293,7 @@ levi::Expression ExpressionsServer::adjointTransform(const std::string &baseFram
 
 levi::Expression ExpressionsServer::adjointTransformJointsDerivative(const std::string &baseFrame, const std::string &targetFrame, long column)
 {
-    std::string label = baseFrame + targetFrame + "__" + std::to_string(column);
+    std::string label = framesKey(baseFrame, targetFrame) + "__" + std::to_string(column);
 
     ExpressionMap::iterator element = m_pimpl->adjointDerivativeMap.find(label);
 
@@ -307,13 +315,13 @@ levi::Expression ExpressionsServer::adjointTransformJointsDerivative(const std::
 
 levi::Expression ExpressionsServer::adjointTransformWrench(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->adjointWrenchMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->adjointWrenchMap.find(framesKey(baseFrame, targetFrame));
 
     if (element != m_pimpl->adjointWrenchMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesKey(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(6, 6);
         } else {
@@ -327,7 +335,7 @@ levi::Expression ExpressionsServer::adjointTransformWrench(const std::string &ba
 
 levi::Expression ExpressionsServer::adjointTransformWrenchJointsDerivative(const std::string &baseFrame, const std::string &targetFrame, long column)
 {
-    std::string label = baseFrame + targetFrame + "__" + std::to_string(column);
+    std::string label = framesKey(baseFrame, targetFrame) + "__" + std::to_string(column);
 
     ExpressionMap::iterator element = m_pimpl->adjointWrenchDerivativeMap.find(label);
 
@@ -349,13 +357,13 @@ levi::Expression ExpressionsServer::adjointTransformWrenchJointsDerivative(const
 
 levi::Expression ExpressionsServer::relativePosition(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativePositionsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativePositionsMap.find(framesKey(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativePositionsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesKey(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(3, 1);
         } else {
@@ -369,13 +377,13 @@ levi::Expression ExpressionsServer::relativePosition(const std::string &baseFram
 
 levi::Expression ExpressionsServer::relativeQuaternion(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeQuaternionsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeQuaternionsMap.find(framesKey(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeQuaternionsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesKey(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(4,4).col(0);
         } else {
@@ -389,13 +397,13 @@ levi::Expression ExpressionsServer::relativeQuaternion(const std::string &baseFr
 
 levi::Expression ExpressionsServer::relativeRotation(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeRotationsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeRotationsMap.find(framesKey(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeRotationsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesKey(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(3, 3);
         } else {
@@ -409,13 +417,13 @@ levi::Expression ExpressionsServer::relativeRotation(const std::string &baseFram
 
 TransformExpression ExpressionsServer::relativeTransform(const std::string &baseFrame, const std::string &targetFrame)
 {
-    TransformsMap::iterator element = m_pimpl->transformsMap.find(baseFrame+targetFrame);
+    TransformsMap::iterator element = m_pimpl->transformsMap.find(framesKey(baseFrame, targetFrame));
 
     if (element != m_pimpl->transformsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, TransformExpression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesKey(baseFrame, targetFrame);
         newElement.second = TransformExpression(relativePosition(baseFrame, targetFrame), relativeRotation(baseFrame, targetFrame));
         auto result = m_pimpl->transformsMap.insert(newElement);
         assert(result.second);
@@ -425,13 +433,13 @@ TransformExpression ExpressionsServer::relativeTransform(const std::string &base
 
 levi::Expression ExpressionsServer::relativeLeftJacobian(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeJacobiansMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeJacobiansMap.find(framesKey(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeJacobiansMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesKey(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(6, m_pimpl->s.rows());
         } else {
@@ -445,13 +453,13 @@ levi::Expression ExpressionsServer::relativeLeftJacobian(const std::string &base
 
 levi::Expression ExpressionsServer::relativeVelocity(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->velocitiesMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->velocitiesMap.find(framesKey(baseFrame, targetFrame));
 
     if (element != m_pimpl->velocitiesMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesKey(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(6, 1);
         } else {
@@ -465,7 +473,7 @@ levi::Expression ExpressionsServer::relativeVelocity(const std::string &baseFram
 
 levi::Expression ExpressionsServer::absoluteVelocity(const std::string &targetFrame, const levi::Variable &baseTwist)
 {
-    std::string key = targetFrame + baseTwist.name();
+    std::string key = framesKey(targetFrame, baseTwist.name());
     ExpressionMap::iterator element = m_pimpl->absoluteVelocitiesMap.find(key);
 
     if (element != m_pimpl->absoluteVelocitiesMap.end()) {
@@ -491,7 +499,7 @@ levi::Expression ExpressionsServer::absoluteVelocity(const std::string &targetFr
 
 levi::Expression ExpressionsServer::absoluteVelocityJointsDerivative(const std::string &targetFrame, const levi::Variable &baseTwist)
 {
-    std::string label = targetFrame + baseTwist.name();
+    std::string label = framesKey(targetFrame, baseTwist.name());
 
     ExpressionMap::iterator element = m_pimpl->absoluteVelocitiesDerivativeMap.find(label);
 
@@ -513,13 +521,15 @@ levi::Expression ExpressionsServer::absoluteVelocityJointsDerivative(const std::
 
 levi::Expression ExpressionsServer::quaternionError(const std::string &desiredFrame, const levi::Variable &desiredQuaternion)
 {
-    ExpressionMap::iterator element = m_pimpl->quaternionsErrorsMap.find(desiredFrame);
+    std::string label = framesKey(desiredFrame, desiredQuaternion.name());
+
+    ExpressionMap::iterator element = m_pimpl->quaternionsErrorsMap.find(label);
 
     if (element != m_pimpl->quaternionsErrorsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = desiredFrame;
+        newElement.first = label;
         newElement.second = QuaternionError(desiredFrame, this, desiredQuaternion);
         auto result = m_pimpl->quaternionsErrorsMap.insert(newElement);
         assert(result.second);
@@ -529,7 +539,7 @@ levi::Expression ExpressionsServer::quaternionError(const std::string &desiredFr
 
 levi::Expression ExpressionsServer::motionSubSpaceVector(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(joint) + "_" + std::to_string(parentLink) + "_" + std::to_string(childLink);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesMap.find(label);
 
     if (element != m_pimpl->motionSubspacesMap.end()) {
@@ -551,7 +561,7 @@ levi::Expression ExpressionsServer::motionSubSpaceVector(iDynTree::JointIndex jo
 
 levi::Expression ExpressionsServer::motionSubSpaceAsCrossProduct(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(joint) + "_" + std::to_string(parentLink) + "_" + std::to_string(childLink);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesMatrixMap.find(label);
 
     if (element != m_pimpl->motionSubspacesMatrixMap.end()) {
@@ -574,7 +584,7 @@ levi::Expression ExpressionsServer::motionSubSpaceAsCrossProduct(iDynTree::Joint
 
 levi::Expression ExpressionsServer::motionSubSpaceAsCrossProductWrench(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(joint) + "_" + std::to_string(parentLink) + "_" + std::to_string(childLink);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesWrenchMap.find(label);
 
     if (element != m_pimpl->motionSubspacesWrenchMap.end()) {
@@ -638,7 +648,7 @@ levi::Expression ExpressionsServer::compositeRigidBodyInertia()
 
 levi::Expression ExpressionsServer::momentumInBaseJointsDoubleDerivative(const levi::Variable &baseTwist, long column)
 {
-    std::string label = std::to_string(column);
+    std::string label = std::to_string(column) + "__" + baseTwist.name();
 
     ExpressionMap::iterator element = m_pimpl->momentumDoubleDerivativeMap.find(label);
 
-- 
2.43.0


From 6e2c608373ae1fa266649862f80f84043d74085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:58 +0000
Subject: [PATCH 18/25] fix: ExpressionsServer keeps the variables of another
 time

---
 src/private/ExpressionsServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 95c86e7..6ca0403 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -136,7 +136,7 @@ bool ExpressionsServer::updateRobotState(double time, const RobotState &currentS
     m_pimpl->time = time;
     m_pimpl->kinDyn = m_pimpl->timelySharedKinDyn->get(time);
 
-    if (m_pimpl->first || !(m_pimpl->kinDyn->sameState(currentState))) {
+    if (m_pimpl->first || !(m_pimpl->kinDyn->sameState(currentState)) || !(m_pimpl->kinDyn->sameState(m_pimpl->robotState))) {
         if (!(m_pimpl->kinDyn->updateRobotState(currentState))){
             return false;
         }
-- 
2.43.0


From bb4e9bec5c106bd13826ce5195d73b5bd463df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:58 +0000
Subject: [PATCH 19/25] fix: SharedKinDynComputations trusts the state of the
 previous model

---
 src/private/SharedKinDynComputations.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/SharedKinDynComputations.cpp b/src/private/SharedKinDynComputations.cpp
index a206685..a71facb 100644
--- a/src/private/SharedKinDynComputations.cpp
+++ b/src/private/SharedKinDynComputations.cpp
@@ -233,6 +233,7 @@ bool SharedKinDynComputations::loadRobotModel(const iDynTree::Model &model)
 {
     std::lock_guard<std::mutex> guard(m_data->mutex);
     bool ok = m_data->kinDyn.loadRobotModel(model);
+    m_data->updateNecessary = true;
 
     if (ok) {
         m_data->state.s.resize(m_data->kinDyn.getNrOfDegreesOfFreedom());
-- 
2.43.0


From cca6d7fb5c2f858335ec2fb32d0b3b6901e60255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:11 +0000
Subject: [PATCH 20/25] fix: honour the end time when saving an animation

The condition was inverted: a given end time was ignored, and without one
the states were limited by the negative default.
---
 src/Visualizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Visualizer.cpp b/src/Visualizer.cpp
index e4018bb..6f2191b 100644
--- a/src/Visualizer.cpp
+++ b/src/Visualizer.cpp
@@ -191,7 +191,7 @@ bool Visualizer::visualizeStatesAndSaveAnimation(const std::vector<State> &state
 
     size_t i = 0;
 
-    while (i < states.size() && (!(endTime < 0) || (states[i].time <= endTime))) {
+    while (i < states.size() && ((endTime < 0) || (states[i].time <= endTime))) {
 
         std::chrono::steady_clock::time_point begin = std::chrono::steady_clock::now();
         visualizeState(states[i]);
@@ -301,7 +301,7 @@ bool Visualizer::visualizeMPCStatesAndSaveAnimation(const std::vector<State> &st
 
     DynamicalPlanner::State initialState = states.front();
 
-    while (stateIndex < states.size() && fullStateIndex < fullStates.size() && (!(endTime < 0) || (states[stateIndex].time <= endTime))) {
+    while (stateIndex < states.size() && fullStateIndex < fullStates.size() && ((endTime < 0) || (states[stateIndex].time <= endTime))) {
         for (size_t i = 0; i < fullStates[fullStateIndex].size(); ++i)
         {
             speeduplabel.setVisible(false);
-- 
2.43.0


From e348a674f0ce885ca4edefbddf5c9708fd8dedf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:11 +0000
Subject: [PATCH 21/25] fix: count all the frames of an MPC animation

The number of digits of the frame names was derived from an underestimate,
and the padding of the last frames could become negative (std::length_error).
---
 src/Visualizer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Visualizer.cpp b/src/Visualizer.cpp
index 6f2191b..a335c22 100644
--- a/src/Visualizer.cpp
+++ b/src/Visualizer.cpp
@@ -286,7 +286,10 @@ bool Visualizer::visualizeMPCStatesAndSaveAnimation(const std::vector<State> &st
     }
 
     unsigned int statesIncrement = (states.size() - 1) / fullStates.size(); //The first state is the initial one
-    unsigned int numberOfFrames = fullStates.size() * (fullStates.front().size() + (statesIncrement - 1));
+    size_t numberOfFrames = 0;
+    for (const std::vector<State>& fullState : fullStates) {
+        numberOfFrames += fullState.size() + statesIncrement;
+    }
 
     unsigned int digits = static_cast<unsigned int>(std::floor(std::log10(numberOfFrames) + 1));
 
-- 
2.43.0


From 9e6de8314615912e3bd0735cc749dfd6014f53fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:11 +0000
Subject: [PATCH 22/25] fix: refuse invalid references in the foot yaw and
 postural velocity costs

They were only asserted, so that release builds used an invalid reference.
---
 src/private/FootYawCost.cpp                   | 18 +++++++++++++++---
 src/private/JointsVelocityForPosturalCost.cpp | 19 ++++++++++++++++---
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/private/FootYawCost.cpp b/src/private/FootYawCost.cpp
index 171a227..c46441c 100644
--- a/src/private/FootYawCost.cpp
+++ b/src/private/FootYawCost.cpp
@@ -137,7 +137,11 @@ bool FootYawCost::costEvaluation(double time, const iDynTree::VectorDynSize &sta
 
     bool isValid = false;
     double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
-    assert(isValid);
+
+    if (!isValid) {
+        std::cerr << "[ERROR][FootYawCost::costEvaluation] Unable to retrieve a valid yaw at time " << time << "." << std::endl;
+        return false;
+    }
 
     double sy = std::sin(desiredYaw);
     double cy = std::cos(desiredYaw);
@@ -161,7 +165,11 @@ bool FootYawCost::costFirstPartialDerivativeWRTState(double time, const iDynTree
 
     bool isValid = false;
     double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
-    assert(isValid);
+
+    if (!isValid) {
+        std::cerr << "[ERROR][FootYawCost::costFirstPartialDerivativeWRTState] Unable to retrieve a valid yaw at time " << time << "." << std::endl;
+        return false;
+    }
 
     iDynTree::Vector3 currentTopBottomDistance, currentLeftRightDistance;
     iDynTree::toEigen(currentTopBottomDistance) = iDynTree::toEigen(m_pimpl->stateVariables(m_pimpl->topRightRange)) - iDynTree::toEigen(m_pimpl->stateVariables(m_pimpl->bottomRightRange));
@@ -197,7 +205,11 @@ bool FootYawCost::costSecondPartialDerivativeWRTState(double time, const iDynTre
 
     bool isValid = false;
     double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
-    assert(isValid);
+
+    if (!isValid) {
+        std::cerr << "[ERROR][FootYawCost::costSecondPartialDerivativeWRTState] Unable to retrieve a valid yaw at time " << time << "." << std::endl;
+        return false;
+    }
 
     double sy = std::sin(desiredYaw);
     double cy = std::cos(desiredYaw);
diff --git a/src/private/JointsVelocityForPosturalCost.cpp b/src/private/JointsVelocityForPosturalCost.cpp
index 0f5fda1..c7d9e55 100644
--- a/src/private/JointsVelocityForPosturalCost.cpp
+++ b/src/private/JointsVelocityForPosturalCost.cpp
@@ -8,6 +8,7 @@
 #include <DynamicalPlannerPrivate/Costs/JointsVelocityForPosturalCost.h>
 #include <iDynTree/Core/EigenHelpers.h>
 #include <cassert>
+#include <iostream>
 
 using namespace DynamicalPlanner::Private;
 
@@ -89,7 +90,11 @@ bool JointsVelocityForPosturalCost::costEvaluation(double time, const iDynTree::
 
     bool isValid = false;
     const iDynTree::VectorDynSize& desiredJoints = m_pimpl->desiredJoints->get(time, isValid);
-    assert(isValid);
+
+    if (!isValid) {
+        std::cerr << "[ERROR][JointsVelocityForPosturalCost::costEvaluation] Unable to retrieve valid joints at time " << time << "." << std::endl;
+        return false;
+    }
 
     iDynTree::toEigen(m_pimpl->jointsError) = iDynTree::toEigen(m_pimpl->stateVariables(m_pimpl->jointsRange)) -
         iDynTree::toEigen(desiredJoints);
@@ -110,7 +115,11 @@ bool JointsVelocityForPosturalCost::costFirstPartialDerivativeWRTState(double ti
 
     bool isValid = false;
     const iDynTree::VectorDynSize& desiredJoints = m_pimpl->desiredJoints->get(time, isValid);
-    assert(isValid);
+
+    if (!isValid) {
+        std::cerr << "[ERROR][JointsVelocityForPosturalCost::costFirstPartialDerivativeWRTState] Unable to retrieve valid joints at time " << time << "." << std::endl;
+        return false;
+    }
 
     iDynTree::toEigen(m_pimpl->jointsError) = iDynTree::toEigen(m_pimpl->stateVariables(m_pimpl->jointsRange)) -
         iDynTree::toEigen(desiredJoints);
@@ -132,7 +141,11 @@ bool JointsVelocityForPosturalCost::costFirstPartialDerivativeWRTControl(double
 
     bool isValid = false;
     const iDynTree::VectorDynSize& desiredJoints = m_pimpl->desiredJoints->get(time, isValid);
-    assert(isValid);
+
+    if (!isValid) {
+        std::cerr << "[ERROR][JointsVelocityForPosturalCost::costFirstPartialDerivativeWRTControl] Unable to retrieve valid joints at time " << time << "." << std::endl;
+        return false;
+    }
 
     iDynTree::toEigen(m_pimpl->jointsError) = iDynTree::toEigen(m_pimpl->stateVariables(m_pimpl->jointsRange)) -
         iDynTree::toEigen(desiredJoints);
-- 
2.43.0


From fd29103044b674222a136ee07a4a19021069c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:43 +0000
Subject: [PATCH 23/25] fix: refuse to animate an MPC plan without states,
 whose last state is displayed

---
 src/Visualizer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Visualizer.cpp b/src/Visualizer.cpp
index a335c22..1e7b376 100644
--- a/src/Visualizer.cpp
+++ b/src/Visualizer.cpp
@@ -285,6 +285,15 @@ bool Visualizer::visualizeMPCStatesAndSaveAnimation(const std::vector<State> &st
         return false;
     }
 
+    for (const std::vector<State>& fullState : fullStates)
+    {
+        if (fullState.size() == 0)
+        {
+            std::cerr << "[ERROR][Visualizer::visualizeMPCStatesAndSaveAnimation] Each element of fullStates has to contain at least one state." << std::endl;
+            return false;
+        }
+    }
+
     unsigned int statesIncrement = (states.size() - 1) / fullStates.size(); //The first state is the initial one
     size_t numberOfFrames = 0;
     for (const std::vector<State>& fullState : fullStates) {
-- 
2.43.0


From 41137c9dafb8c96fc82b9c7fe0164ec0254fc5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:43 +0000
Subject: [PATCH 24/25] fix: the default initial state needs as many contact
 points as the feet give forces for

---
 src/Utilities.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 9131b70..cd6ed08 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -107,6 +107,12 @@ bool FillDefaultInitialState(const Settings &inputSettings, const iDynTree::Vect
         return false;
     }
 
+    if (leftPointForces.size() != settings.leftPointsPosition.size() || rightPointForces.size() != settings.rightPointsPosition.size())
+    {
+        std::cerr << "[ERROR][DynamicalPlanner::Utilities::FillDefaultInitialState] The number of contact points in the settings does not match the number of forces computed for each foot." <<std::endl;
+        return false;
+    }
+
     for (size_t i = 0; i < settings.leftPointsPosition.size(); ++i) {
         initialState.leftContactPointsState[i].pointForce = leftPointForces[i];
         initialState.rightContactPointsState[i].pointForce =rightPointForces[i];
-- 
2.43.0


From 7555feab75c402ca6d38fcfde515719364c5895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:41 +0000
Subject: [PATCH 25/25] fix: the quotient of a matrix by a scalar has the
 columns of the matrix

---
 extern/levi/include/levi/OperatorsEvaluables.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/OperatorsEvaluables.h b/extern/levi/include/levi/OperatorsEvaluables.h
index 02dcf95..809d6f1 100644
--- a/extern/levi/include/levi/OperatorsEvaluables.h
+++ b/extern/levi/include/levi/OperatorsEvaluables.h
@@ -823,7 +823,7 @@ private:
 public:
 
     DivisionEvaluable(const levi::ExpressionComponent<LeftEvaluable>& lhs, const levi::ExpressionComponent<RightEvaluable>& rhs)
-        : levi::BinaryOperator<product_type, LeftEvaluable, RightEvaluable>(lhs, rhs, lhs.rows(), rhs.cols(), lhs.name() + "/(" + rhs.name() + ")")
+        : levi::BinaryOperator<product_type, LeftEvaluable, RightEvaluable>(lhs, rhs, lhs.rows(), lhs.cols(), lhs.name() + "/(" + rhs.name() + ")")
     {
         assert(rhs.rows() == 1 && rhs.cols() == 1);
         this->m_info->type = levi::EvaluableType::Division;
-- 
2.43.0

