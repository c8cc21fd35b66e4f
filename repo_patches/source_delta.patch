From f9774ac204fefa32ebfa87fed1da0ded52cb3ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:26 +0000
Subject: [PATCH 01/15] fix: correct second row of the inverse acceleration
 dynamics when the first step is shorter

---
 src/tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 42e96dd..39e8bc9 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -176,7 +176,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeAccDynamic(Scalar S, Scalar T,
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
@@ -215,7 +215,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeOrder2VelDynamic(Scalar S, Scala
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
-- 
2.43.0


From bd45f7add24ce076b686edff2055747c2df6528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 02/15] fix: initialise the tilt contact point in the default
 constructor of the base model

---
 src/model/zebulon_base_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 39155f1..88b6b93 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -58,6 +58,8 @@ BaseModel<Scalar>::BaseModel()
   ,velocityLimit_(1.0)
   ,accelerationLimit_(1.0)
   ,jerkLimit_(1.0)
+  ,tiltContactPointX_(0.0)
+  ,tiltContactPointY_(0.0)
   ,copSupportConvexPolygon_()
   ,comSupportConvexPolygon_()
 {
-- 
2.43.0


From ad8fa668c728a68a1d17b6fe4bac8d325bd32277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 03/15] fix: report a failed QP solve even without a diagnostic
 stream

---
 qpsolver/src/qpsolver_qpoases.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 241ded1..6ead07b 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -76,11 +76,14 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
   // the "non-solution" might be useful: it is optimal but unfeasible with
   // respect to some constraints.
   qp_.getPrimalSolution(sol.data());
-  if ((ret != ::qpOASES::SUCCESSFUL_RETURN) && (os != nullptr))
+  if (ret != ::qpOASES::SUCCESSFUL_RETURN)
   {
-    *os << "QP unfeasible. QPOases error code: " << ret
-        << ". Number of working set recalculations: " << maxNbIterations
-        << ". Was warm start: " << doWarmStart << ".\n";
+    if (os != nullptr)
+    {
+      *os << "QP unfeasible. QPOases error code: " << ret
+          << ". Number of working set recalculations: " << maxNbIterations
+          << ". Was warm start: " << doWarmStart << ".\n";
+    }
     return false;
   }
 
-- 
2.43.0


From 6ff01c59e94641afe5da9209529b7e1849b1d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 04/15] fix: convex hull of duplicated, aligned or single
 points

---
 src/convexpolygon.cpp | 65 ++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index f561d3b..c9e5ac1 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -72,9 +72,10 @@ namespace MPCWalkgen
 
     // Adding the other vertices until we reach the first index, which
     // means the convex polygon has been completed
-    while(index != getIndexOfLowestAndLeftmostVertice(points))
+    // (compared by value, since the first vertex may appear several times in points)
+    while(!points[index].isApprox(p.front(), Constant<Scalar>::EPSILON))
     {
-      assert(p.size() <= points.size());
+      assert(p.size() < points.size());
 
       p.push_back(points[index]);
       index = getIndexOfSmallestAngleVertice(index, *(p.end()-2), points);
@@ -99,16 +100,14 @@ namespace MPCWalkgen
     }
     else
     {
-      Scalar angle = vec1.dot(vec2)/(vec1.norm()*vec2.norm());
+      Scalar angle = std::atan2(vec1(0)*vec2(1) - vec1(1)*vec2(0), vec1.dot(vec2));
 
-      if(vec1(0)*vec2(1) - vec1(1)*vec2(0) >= static_cast<Scalar>(0.0))
+      // Opposite directions, whatever the sign rounding errors give to the cross product
+      if(angle < -boost::math::constants::pi<Scalar>() + Constant<Scalar>::EPSILON)
       {
-        return std::acos(angle);
-      }
-      else
-      {
-        return -std::acos(angle);
+        return boost::math::constants::pi<Scalar>();
       }
+      return angle;
     }
   }
 
@@ -166,44 +165,48 @@ namespace MPCWalkgen
   {
     //Creating vector of indexes of the candidate for the next vertex
     std::vector<int> indexesTab;
-    indexesTab.reserve(ptot.size() - 1);
-
-    // We push back index 0 arbitrarily, unless currIndex=0
-    if(currIndex!=0)
-    {
-      indexesTab.push_back(0);
-    }
-    else
-    {
-      indexesTab.push_back(1);
-    }
+    indexesTab.reserve(ptot.size());
 
-    for (size_t i=1; i<ptot.size(); ++i)
+    for (size_t i=0; i<ptot.size(); ++i)
     {
       // We do not check the current vertex. This if statement also avoids copies
       // of the current vertex among ptot vector, i.e. we do not count the current
       // vertex more than once
       if(!ptot[i].isApprox(ptot[currIndex], Constant<Scalar>::EPSILON))
       {
-        if(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                            ptot[i] - ptot[currIndex]) <
-           angleBetweenVecs(ptot[currIndex] -
-                            lastVertice, ptot[indexesTab[0]] - ptot[currIndex]))
+        // The first other point is an arbitrary first candidate
+        if(indexesTab.empty())
         {
-          indexesTab.erase(indexesTab.begin(), indexesTab.end());
           indexesTab.push_back(i);
+          continue;
         }
-        else if(std::abs(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[i] - ptot[currIndex]) -
-                         angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[indexesTab[0]] - ptot[currIndex]))
-               < Constant<Scalar>::EPSILON)
+
+        // Aligned points first, so that rounding errors cannot discard the furthest one
+        if(std::abs(angleBetweenVecs(ptot[currIndex] - lastVertice,
+                                     ptot[i] - ptot[currIndex]) -
+                    angleBetweenVecs(ptot[currIndex] - lastVertice,
+                                     ptot[indexesTab[0]] - ptot[currIndex]))
+           < Constant<Scalar>::EPSILON)
         {
           indexesTab.push_back(i);
         }
+        else if(angleBetweenVecs(ptot[currIndex] - lastVertice,
+                                 ptot[i] - ptot[currIndex]) <
+                angleBetweenVecs(ptot[currIndex] - lastVertice,
+                                 ptot[indexesTab[0]] - ptot[currIndex]))
+        {
+          indexesTab.erase(indexesTab.begin(), indexesTab.end());
+          indexesTab.push_back(i);
+        }
       }
     }
 
+    // All the points are copies of the current vertex
+    if(indexesTab.empty())
+    {
+      return currIndex;
+    }
+
     //Choosing the index of the furthest point from the current point
     //among indexesTab
     if (indexesTab.size()>1)
-- 
2.43.0


From a950193b550d1e5f972db1af7654d64f4b179fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 05/15] fix: accelerations of the two masses were swapped in
 the tilt objectives

---
 src/function/zebulon_tilt_minimization_objective.cpp          | 4 ++--
 src/function/zebulon_tilt_velocity_minimization_objective.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/function/zebulon_tilt_minimization_objective.cpp b/src/function/zebulon_tilt_minimization_objective.cpp
index 4fb6ebf..221d208 100644
--- a/src/function/zebulon_tilt_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_minimization_objective.cpp
@@ -122,8 +122,8 @@ void TiltMinimizationObjective<Scalar>::computeConstantPart()
   Scalar A2 = m*g;
   Scalar A3x = M*g*dbx;
   Scalar A3y = M*g*dby;
-  Scalar A4 = m*h;
-  Scalar A5 = M*L;
+  Scalar A4 = M*L;
+  Scalar A5 = m*h;
   Scalar A6 = m*h*h+M*L*L;
 
   const LinearDynamic<Scalar>& tiltAngleDyn = baseModel_.getBaseTiltAngleLinearDynamic();
diff --git a/src/function/zebulon_tilt_velocity_minimization_objective.cpp b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
index c3af044..36dbaef 100644
--- a/src/function/zebulon_tilt_velocity_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
@@ -122,8 +122,8 @@ void TiltVelMinimizationObjective<Scalar>::computeConstantPart()
   Scalar A2 = m*g;
   Scalar A3x = M*g*dbx;
   Scalar A3y = M*g*dby;
-  Scalar A4 = m*h;
-  Scalar A5 = M*L;
+  Scalar A4 = M*L;
+  Scalar A5 = m*h;
   Scalar A6 = m*h*h+M*L*L;
 
   const LinearDynamic<Scalar>& tiltAngleDyn = baseModel_.getBaseTiltAngleLinearDynamic();
-- 
2.43.0


From 0cfd4240f87f389821e39da0999eae4bb134b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 06/15] fix: sign of the gravity term of a CoP reference given
 in the world frame

---
 src/function/zebulon_cop_centering_objective.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/zebulon_cop_centering_objective.cpp b/src/function/zebulon_cop_centering_objective.cpp
index b869632..794f819 100644
--- a/src/function/zebulon_cop_centering_objective.cpp
+++ b/src/function/zebulon_cop_centering_objective.cpp
@@ -175,7 +175,7 @@ void CopCenteringObjective<Scalar>::setCopRefInWorldFrame(
 
   copRefInLocalFrame_ = ( mb*g[2]*basePosRefInWorldFrame - mb*hb*baseAccRefInWorldFrame
                         + mc*g[2]*comPosRefInWorldFrame - mc*hc*comAccRefInWorldFrame
-                        + (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
+                        - (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
 
                         - basePosRefInWorldFrame; //In local Frame
 }
-- 
2.43.0


From e73a4a19c8606ce55d40c033765984852ba25644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 07/15] fix: keep exactly the previewed footsteps in the
 decision vector after a stop

A stop command in double support (or a preview that holds fewer steps than
before) left footsteps in the decision vector that are no longer previewed.
---
 src/humanoid_feet_supervisor.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 53324bf..5bd7acd 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -526,18 +526,23 @@ namespace MPCWalkgen
       {
         enlargeStepVec(variable);
       }
-      // When the user set move_ to false this checks if the QP variable size must be reduce.
-      if(!move_ && (variable.rows() > 2*nbSamples_ + 2))
-      {
-        variable(2*nbSamples_ + 1) = variable(variable.rows()/2 + nbSamples_);
-        variable.conservativeResize(2*nbSamples_ + 2);
-      }
-
       // Decrementing timers
       phaseTimer_ -= samplingPeriod_;
       horizonTimer_ -= samplingPeriod_;
     }
 
+    // When less steps are previewed than before (e.g. when the user sets move_ to false), the
+    // QP variable size must be reduced: only the previewed steps are kept.
+    const int nbOfSteps = static_cast<int>(variable.rows())/2 - nbSamples_;
+    if(nbOfSteps > nbPreviewedSteps_)
+    {
+      for(int i=0; i<nbPreviewedSteps_; ++i)
+      {
+        variable(2*nbSamples_ + nbPreviewedSteps_ + i) = variable(2*nbSamples_ + nbOfSteps + i);
+      }
+      variable.conservativeResize(2*nbSamples_ + 2*nbPreviewedSteps_);
+    }
+
     //Removing useless phases
     timeline_.set_capacity(phaseIndex + 1);
 
-- 
2.43.0


From 4ec07d7dea84f1c73587f879d0dc2d867decd69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 08/15] fix: start the first previewed footstep from the
 support foot

When the previewed steps run out in single support, the new first footstep
was placed relative to an unrelated entry of the decision vector.
---
 src/humanoid_feet_supervisor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 5bd7acd..b3671f6 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -761,13 +761,14 @@ namespace MPCWalkgen
     }
 
     // Adding x and y coordinates of the new footstep position
-    if(isInDS() && (nbPreviewedSteps_==1))
+    if(newNbOfSteps == 1)
     {
+      // No footstep is previewed before this one: it starts from the support foot
       variable(2*nbSamples_ + newNbOfSteps - 1) =
-          getLeftFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
+          getSupportFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
 
       variable(newSize - 1) =
-          getLeftFootStateY()(0) + (lowestPointY + highestPointY)/2;
+          getSupportFootStateY()(0) + (lowestPointY + highestPointY)/2;
     }
     else
     {
-- 
2.43.0


From f60e7ccb3a6a29944aeb4b5e8e3457d623a37898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 09/15] fix: land the flying foot when its rise cannot end
 within half of the flight

With a feedback period that does not divide half of the flight the rising
polynomial was evaluated past its end and the foot stayed high above the ground.
---
 src/humanoid_feet_supervisor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index b3671f6..fbab1a1 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -592,7 +592,8 @@ namespace MPCWalkgen
                                feedBackPeriod);
 
       //Updating Z state for the flying foot, depending whether the foot is going up or down
-      if(timeToNextPhase_ < flyingTime*0.5f + Constant<Scalar>::EPSILON)
+      // (a rise that cannot be completed within half of the flight must not be extrapolated)
+      if(timeToNextPhase_ - feedBackPeriod < flyingTime*0.5f - Constant<Scalar>::EPSILON)
       {
         flyingFoot->updateStateZ(Vector3::Zero(),
                                  timeToNextPhase_,
-- 
2.43.0


From a23d7d5995465c4240b94da5df7048001db965a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 10/15] fix: recompute the tilt objectives when the height of
 the base CoM changes

---
 src/zebulon_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 5b588a5..698e267 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -178,6 +178,8 @@ void ZebulonWalkgen<Scalar>::setComBaseHeight(Scalar comHeight)
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
+  tiltMinObj_.computeConstantPart();
+  tiltVelMinObj_.computeConstantPart();
 
   computeConstantPart();
 }
-- 
2.43.0


From 729becd887c4185f3079e13c94f0d7221860e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 11/15] fix: keep the gravity shift of the CoM reference when
 the number of samples changes

---
 src/zebulon_walkgen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 698e267..211458c 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -48,6 +48,7 @@ void ZebulonWalkgen<Scalar>::setNbSamples(int nbSamples)
   lipModel_.setNbSamples(nbSamples);
   baseModel_.setNbSamples(nbSamples);
   comCenteringObj_.setNbSamples(nbSamples);
+  comCenteringObj_.updateGravityShift();
 
   dX_.setZero(4*nbSamples);
   X_.setZero(4*nbSamples);
-- 
2.43.0


From b4ec027697560aebd23359fbf015834162383f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 12/15] fix: accept lower body and base masses than the current
 ones

---
 src/zebulon_walkgen.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 211458c..d5a4748 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -192,6 +192,11 @@ void ZebulonWalkgen<Scalar>::setBodyMass(Scalar mass)
 
 
   Scalar totalMass = mass + baseModel_.getMass();
+  // the total mass is never lower than the mass, not even in between
+  if (mass<lipModel_.getMass())
+  {
+    lipModel_.setMass(mass);
+  }
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
@@ -212,6 +217,11 @@ void ZebulonWalkgen<Scalar>::setBaseMass(Scalar mass)
   assert(mass==mass);
 
   Scalar totalMass = lipModel_.getMass() + mass;
+  // the total mass is never lower than the mass, not even in between
+  if (mass<baseModel_.getMass())
+  {
+    baseModel_.setMass(mass);
+  }
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
-- 
2.43.0


From 1780bab5efcedec7d3efacab414ba913124d97be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 13/15] fix: rebuild the table of QP solvers when the size of
 the humanoid's problem changes

---
 src/humanoid_walkgen.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 57cc3cb..e7907b5 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -458,9 +458,10 @@ namespace MPCWalkgen
   {
     // Updating qpoasesSolverVec_ and qpMatrixVec_
     maximumNbOfSteps_ = feetSupervisor_.getNbSamples();
+    maximumNbOfConstraints_ = 0;
     if(config_.withCopConstraints)
     {
-      maximumNbOfConstraints_ = feetSupervisor_.getMaximumNbOfCopConstraints()
+      maximumNbOfConstraints_ += feetSupervisor_.getMaximumNbOfCopConstraints()
           *feetSupervisor_.getNbSamples();
     }
     if(config_.withFeetConstraints)
@@ -469,6 +470,7 @@ namespace MPCWalkgen
           *maximumNbOfSteps_;
     }
 
+    qpoasesSolverVec_.clear();
     qpoasesSolverVec_.reserve((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
     qpMatrixVec_.resize((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
 
-- 
2.43.0


From ddc40f1cc27c1e97870902fc857d983f4b56db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 14/15] fix: size the humanoid's table of QP solvers for the
 polygons in use

---
 src/humanoid_walkgen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index e7907b5..3760220 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -94,6 +94,7 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootKinematicConvexPolygon(convexPolygon);
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -101,6 +102,7 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar> &convexPolygon)
   {
     feetSupervisor_.setRightFootKinematicConvexPolygon(convexPolygon);
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -108,6 +110,7 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootCopConvexPolygon(convexPolygon);
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -115,6 +118,7 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setRightFootCopConvexPolygon(convexPolygon);
+    computeConstantPart();
   }
 
   template <typename Scalar>
-- 
2.43.0


From 635ec4129ca7c8b5d72fa15ef9b5c5dfe68cbcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 15/15] fix: a double support cut short by a setter ended
 without a next phase when that was not within the horizon yet

---
 src/humanoid_feet_supervisor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index fbab1a1..cbdd2cf 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -485,6 +485,14 @@ namespace MPCWalkgen
         shortenStepVec(variable);
       }
 
+      // A phase shortened by a setter can end before the next one was previewed
+      if(timeline_.size()<2)
+      {
+        processFSM(timeline_.front());
+        timeline_.set_capacity(timeline_.capacity() + 1);
+        timeline_.push_back(Phase<Scalar>(phase_));
+      }
+
       timeline_.pop_front();
       timeline_.set_capacity(timeline_.capacity() - 1);
 
-- 
2.43.0

