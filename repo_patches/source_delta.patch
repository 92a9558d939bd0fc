From 4f1252fc23c580ee81024b3c03e48371dea1fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 01/27] fix: share the address-table loop between threads
 instead of every thread running all of it

---
 FDPS/tree_for_force_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FDPS/tree_for_force_impl.hpp b/FDPS/tree_for_force_impl.hpp
index 785672e..eb465b1 100644
--- a/FDPS/tree_for_force_impl.hpp
+++ b/FDPS/tree_for_force_impl.hpp
@@ -457,7 +457,7 @@ namespace ParticleSimulator{
 #endif
 
 #ifdef PARTICLE_SIMULATOR_THREAD_PARALLEL
-#pragma omp parallel 
+#pragma omp parallel for
 #endif
             for(S32 i=0; i<n_glb_tot_; i++){
                 adr_org_from_adr_sorted_glb_[i] = tp_glb_[i].adr_ptcl_;
-- 
2.43.0


From e6f2d9d4daf042649cbf05b9621c803ddcde9851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 02/27] fix: keep a unit quaternion for particles standing
 normal to the monolayer

---
 Sylinder/SylinderSystem.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index a95ae57..b5b8f60 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -912,7 +912,10 @@ void SylinderSystem::prepareStep() {
             sy.pos[2] = monoZ;
             Evec3 drt = Emapq(sy.orientation) * Evec3(0, 0, 1);
             drt[2] = 0;
-            drt.normalize();
+            if (drt.squaredNorm() > 0)
+                drt.normalize();
+            else
+                drt = Evec3(1, 0, 0); // normal to the layer, no in-plane direction to keep
             Emapq(sy.orientation).setFromTwoVectors(Evec3(0, 0, 1), drt);
         }
     }
-- 
2.43.0


From 036998918bfc79e6f32631689e21037feec2449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:14 +0000
Subject: [PATCH 03/27] fix: build the constraint matrix on ranks that own no
 particles

---
 Constraint/ConstraintCollector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Constraint/ConstraintCollector.cpp b/Constraint/ConstraintCollector.cpp
index 47b234b..5836f4e 100644
--- a/Constraint/ConstraintCollector.cpp
+++ b/Constraint/ConstraintCollector.cpp
@@ -344,8 +344,10 @@ int ConstraintCollector::buildConstraintMatrixVector(const Teuchos::RCP<const TM
     // step 3 prepare the partitioned column map
     // Each process own some columns. In the map, processes share entries.
     // 3.1 column map has to cover the contiguous range of the mobility map locally owned
-    const int mobMin = mobMapRcp->getMinGlobalIndex();
-    const int mobMax = mobMapRcp->getMaxGlobalIndex();
+    // min and max are not valid indices on a process that owns no columns
+    const bool mobEmpty = mobMapRcp->getNodeNumElements() == 0;
+    const int mobMin = mobEmpty ? 0 : mobMapRcp->getMinGlobalIndex();
+    const int mobMax = mobEmpty ? -1 : mobMapRcp->getMaxGlobalIndex();
     std::vector<int> colMapIndex(mobMax - mobMin + 1);
 #pragma omp parallel for
     for (int i = mobMin; i <= mobMax; i++) {
-- 
2.43.0


From 1e62fe72bdc033814fb0455dbf6a1031a86ea1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 04/27] fix: give APGD a usable step size when its Lipschitz
 estimate is 0/0 or zero

---
 Constraint/BCQPSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index c05f0f7..ab54e8f 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -281,6 +281,9 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
     double Lk = (tempNorm2 / xkdiffNorm2);
+    if (!(Lk > 0)) {
+        Lk = 1; // no usable estimate: x0 equals the probe vector, or A maps their difference to zero
+    }
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
-- 
2.43.0


From 99a7f050ac0bb536da704e3ace31e371b23eea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:53 +0000
Subject: [PATCH 05/27] fix: search contacts up to the collision radius, not
 three times the collision length

---
 Sylinder/SylinderNear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderNear.hpp b/Sylinder/SylinderNear.hpp
index a8c3959..383cc3d 100644
--- a/Sylinder/SylinderNear.hpp
+++ b/Sylinder/SylinderNear.hpp
@@ -106,7 +106,7 @@ struct SylinderNearEP {
      * @return PS::F64
      */
     PS::F64 getRSearch() const {
-        return std::max(length + 2 * radius, lengthCollision + 2 * lengthCollision) * (1 + colBuf);
+        return std::max(length + 2 * radius, lengthCollision + 2 * radiusCollision) * (1 + colBuf);
     }
 
     /**
-- 
2.43.0


From 80459e42dddab773c839daeaeb143e98f8b3c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:53 +0000
Subject: [PATCH 06/27] fix: compare wall distance with the radius the wall
 contact is built with

---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index b5b8f60..733e4d5 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1126,7 +1126,7 @@ void SylinderSystem::collectBoundaryCollision() {
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
                     } else if (deltanorm <
-                               (1 + runConfig.sylinderColBuf * 2) * sy.radiusCollision) { // inside boundary but close
+                               (1 + runConfig.sylinderColBuf * 2) * radius) { // inside boundary but close
                         que.emplace_back(deltanorm - radius, 0, sy.gid, sy.gid, sy.globalIndex, sy.globalIndex,
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
-- 
2.43.0


From 85803a3021f39d5e0abb506efbe08382fa1f50a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:29 +0000
Subject: [PATCH 07/27] fix: flatten a monolayer before distributing particles,
 so contacts across ranks are found

---
 Sylinder/SylinderSystem.cpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 733e4d5..30d463b 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -885,6 +885,24 @@ bool SylinderSystem::getIfWriteResultCurrentStep() {
 
 void SylinderSystem::prepareStep() {
     spdlog::warn("CurrentStep {}", stepCount);
+    if (runConfig.monolayer) {
+        // before particles are distributed, which goes by their positions
+        const int nLocal = sylinderContainer.getNumberOfParticleLocal();
+        const double monoZ = (runConfig.simBoxHigh[2] + runConfig.simBoxLow[2]) / 2;
+#pragma omp parallel for
+        for (int i = 0; i < nLocal; i++) {
+            auto &sy = sylinderContainer[i];
+            sy.pos[2] = monoZ;
+            Evec3 drt = Emapq(sy.orientation) * Evec3(0, 0, 1);
+            drt[2] = 0;
+            if (drt.squaredNorm() > 0)
+                drt.normalize();
+            else
+                drt = Evec3(1, 0, 0); // normal to the layer, no in-plane direction to keep
+            Emapq(sy.orientation).setFromTwoVectors(Evec3(0, 0, 1), drt);
+        }
+    }
+
     applyBoxBC();
 
     if (stepCount % 50 == 0) {
@@ -904,22 +922,6 @@ void SylinderSystem::prepareStep() {
         sy.colBuf = runConfig.sylinderColBuf;
     }
 
-    if (runConfig.monolayer) {
-        const double monoZ = (runConfig.simBoxHigh[2] + runConfig.simBoxLow[2]) / 2;
-#pragma omp parallel for
-        for (int i = 0; i < nLocal; i++) {
-            auto &sy = sylinderContainer[i];
-            sy.pos[2] = monoZ;
-            Evec3 drt = Emapq(sy.orientation) * Evec3(0, 0, 1);
-            drt[2] = 0;
-            if (drt.squaredNorm() > 0)
-                drt.normalize();
-            else
-                drt = Evec3(1, 0, 0); // normal to the layer, no in-plane direction to keep
-            Emapq(sy.orientation).setFromTwoVectors(Evec3(0, 0, 1), drt);
-        }
-    }
-
     updateSylinderMap();
 
     buildSylinderNearDataDirectory();
-- 
2.43.0


From 53871fbffc49636aa149c3f7cf44f41d2c22218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:53 +0000
Subject: [PATCH 08/27] fix: give processes without sample particles an empty
 domain instead of reading past the samples

---
 FDPS/domain_info.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/FDPS/domain_info.hpp b/FDPS/domain_info.hpp
index 8092f87..fbdc65d 100644
--- a/FDPS/domain_info.hpp
+++ b/FDPS/domain_info.hpp
@@ -104,9 +104,12 @@ namespace ParticleSimulator{
 					const S32 iend,
 					F64 & xlow,
 					F64 & xhigh) {
-            if(istart == 0) xlow  = pos_root_domain_.low_.x;
+            // a slice without samples (fewer samples than processes) gets an empty domain
+            if(istart <= 0) xlow  = pos_root_domain_.low_.x;
+	    else if(istart >= np) xlow  = pos_root_domain_.high_.x;
 	    else xlow  = 0.5 * (pos_sample[istart-1].x + pos_sample[istart].x);
-            if(iend == np - 1) xhigh = pos_root_domain_.high_.x;
+            if(iend >= np - 1) xhigh = pos_root_domain_.high_.x;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.x;
 	    else xhigh = 0.5 * (pos_sample[iend].x + pos_sample[iend+1].x);
         }
         void calculateBoundaryOfDomainY(const S32 np,
@@ -115,9 +118,12 @@ namespace ParticleSimulator{
 					const S32 iend,
 					F64 & xlow,
 					F64 & xhigh) {
-            if(istart == 0) xlow  = pos_root_domain_.low_.y;
+            // a slice without samples (fewer samples than processes) gets an empty domain
+            if(istart <= 0) xlow  = pos_root_domain_.low_.y;
+	    else if(istart >= np) xlow  = pos_root_domain_.high_.y;
 	    else xlow  = 0.5 * (pos_sample[istart-1].y + pos_sample[istart].y);
-            if(iend == np - 1) xhigh = pos_root_domain_.high_.y;
+            if(iend >= np - 1) xhigh = pos_root_domain_.high_.y;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.y;
 	    else xhigh = 0.5 * (pos_sample[iend].y + pos_sample[iend+1].y);
         }
 #ifndef PARTICLE_SIMULATOR_TWO_DIMENSION	
@@ -127,9 +133,12 @@ namespace ParticleSimulator{
 					const S32 iend,
 					F64 & xlow,
 					F64 & xhigh) {
-            if(istart == 0) xlow  = pos_root_domain_.low_.z;
+            // a slice without samples (fewer samples than processes) gets an empty domain
+            if(istart <= 0) xlow  = pos_root_domain_.low_.z;
+	    else if(istart >= np) xlow  = pos_root_domain_.high_.z;
 	    else xlow  = 0.5 * (pos_sample[istart-1].z + pos_sample[istart].z);
-            if(iend == np - 1) xhigh = pos_root_domain_.high_.z;
+            if(iend >= np - 1) xhigh = pos_root_domain_.high_.z;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.z;
 	    else xhigh = 0.5 * (pos_sample[iend].z + pos_sample[iend+1].z);
         }	
 #endif
-- 
2.43.0


From 9baba11ac71c5c73066313ff0f3ab710d996e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:22 +0000
Subject: [PATCH 09/27] fix: constraint forces and velocities belong to the
 returned solution

The BCQP solvers stop with an iterate newer than the last force/velocity
evaluation, so solveConstraints returned forces and velocities of an older
gamma. Recompute both from the final gamma.
---
 Constraint/ConstraintSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Constraint/ConstraintSolver.cpp b/Constraint/ConstraintSolver.cpp
index d03baff..9919d18 100644
--- a/Constraint/ConstraintSolver.cpp
+++ b/Constraint/ConstraintSolver.cpp
@@ -100,6 +100,9 @@ void ConstraintSolver::solveConstraints() {
     // unilateral second
     Teuchos::RCP<TV> forceRcp = MOpRcp->getForce();
     Teuchos::RCP<TV> velRcp = MOpRcp->getVel();
+    // the last operator application does not have to belong to the solution returned by the solver
+    DMatRcp->apply(*gammaRcp, *forceRcp);
+    mobOpRcp->apply(*forceRcp, *velRcp);
     forceuRcp->update(1.0, *forceRcp, -1.0, *forcebRcp, 0.0); // force_u = force - force_b
     veluRcp->update(1.0, *velRcp, -1.0, *velbRcp, 0.0);       // vel_u = vel - vel_b
 }
-- 
2.43.0


From c7ab2c77aa44ec53e97f5fe0ec8998a6f7fdb8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:44 +0000
Subject: [PATCH 10/27] fix: Brownian velocity of a monolayer stays in the
 layer

The solver was given the in-plane part only, but particles moved and reported
the full Brownian velocity.
---
 Sylinder/SylinderSystem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 30d463b..271628e 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -793,6 +793,11 @@ void SylinderSystem::calcVelocityNonCon() {
                 velBPtr(6 * i + 2, 0) = 0; // vz
                 velBPtr(6 * i + 3, 0) = 0; // omegax
                 velBPtr(6 * i + 4, 0) = 0; // omegay
+                // the particle moves with its own members, which must agree with the vector given to the solver
+                auto &sy = sylinderContainer[i];
+                sy.velBrown[2] = 0;
+                sy.omegaBrown[0] = 0;
+                sy.omegaBrown[1] = 0;
             }
         }
         velocityNonConRcp->update(1.0, *velocityBrownRcp, 1.0);
-- 
2.43.0


From 7f35f83e434f720156b9e6b99b17b96cfc455866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 11/27] fix: a multiplier at a large bound is at the bound

---
 Constraint/BCQPSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index ab54e8f..9783471 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -477,9 +477,9 @@ double BCQPSolver::checkProjectionResidual(const Teuchos::RCP<const TV> &XRcp, c
 // EQ 2.2 of Dai & Fletcher 2005
 #pragma omp parallel for
     for (int i = 0; i < ibound; i++) {
-        if (xPtr(i, c) < lbPtr(i, c) + eps) {
+        if (xPtr(i, c) <= lbPtr(i, c) + eps) { // eps vanishes against a large bound
             qPtr(i, c) = std::min(yPtr(i, c), 0.0);
-        } else if (xPtr(i, c) > ubPtr(i, c) - eps) {
+        } else if (xPtr(i, c) >= ubPtr(i, c) - eps) {
             qPtr(i, c) = std::max(yPtr(i, c), 0.0);
         } else if (xPtr(i, c) > lbPtr(i, c) && xPtr(i, c) < ubPtr(i, c)) {
             qPtr(i, c) = yPtr(i, c);
-- 
2.43.0


From 9eca88c175b87368ec4c33a3f6047ebafbfb9f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 12/27] fix: bounding box of particles at negative coordinates

---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 271628e..109a762 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1188,7 +1188,7 @@ void SylinderSystem::calcBoundingBox(double localLow[3], double localHigh[3], do
     double lx, ly, lz;
     lx = ly = lz = std::numeric_limits<double>::max();
     double hx, hy, hz;
-    hx = hy = hz = std::numeric_limits<double>::min();
+    hx = hy = hz = std::numeric_limits<double>::lowest();
 
     for (int i = 0; i < nLocal; i++) {
         const auto &sy = sylinderContainer[i];
-- 
2.43.0


From cfc2e2c4d70dc26f2c7e5a4b4f2e781e2ca5081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:19 +0000
Subject: [PATCH 13/27] fix: threads of the neighbour search shared a timer
 variable

---
 FDPS/tree_for_force_impl_force.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/FDPS/tree_for_force_impl_force.hpp b/FDPS/tree_for_force_impl_force.hpp
index 869659b..3443044 100644
--- a/FDPS/tree_for_force_impl_force.hpp
+++ b/FDPS/tree_for_force_impl_force.hpp
@@ -1308,26 +1308,28 @@ namespace ParticleSimulator{
         S64 nj_tmp = 0;
         S64 n_interaction_ep_ep_tmp = 0;
         for(S32 i=0; i<Comm::getNumberOfThread(); i++) n_cell_open_[i] = 0;
-        F64 offset_walk_tree,offset_dispatch;
+        F64 time_walk_tree = 0.0, time_dispatch = 0.0;
 
         if(n_ipg > 0){
 #ifdef PARTICLE_SIMULATOR_THREAD_PARALLEL
-#pragma omp parallel for schedule(dynamic, 4) reduction(+ : ni_tmp, nj_tmp, n_interaction_ep_ep_tmp)
+#pragma omp parallel for schedule(dynamic, 4) reduction(+ : ni_tmp, nj_tmp, n_interaction_ep_ep_tmp, time_walk_tree, time_dispatch)
 #endif
             for(S32 i=0; i<n_ipg; i++){
-                offset_walk_tree = GetWtime();
+                const F64 offset_walk_tree = GetWtime();
                 const S32 ith = Comm::getThreadNum();
                 epj_for_force_[ith].clearSize();
                 adr_epj_for_force_[ith].clearSize();
                 makeInteractionList(i);
-                time_profile_.calc_force__core__walk_tree += GetWtime() - offset_walk_tree;
+                time_walk_tree += GetWtime() - offset_walk_tree;
                 ni_tmp += ipg_[i].n_ptcl_;
                 nj_tmp += epj_for_force_[Comm::getThreadNum()].size();
                 n_interaction_ep_ep_tmp += ipg_[i].n_ptcl_ * epj_for_force_[Comm::getThreadNum()].size();
-                offset_dispatch = GetWtime();
+                const F64 offset_dispatch = GetWtime();
                 calcForceOnly( pfunc_ep_ep, i, clear);
-                time_profile_.calc_force__core__dispatch += GetWtime() - offset_dispatch;
+                time_dispatch += GetWtime() - offset_dispatch;
             }
+            time_profile_.calc_force__core__walk_tree += time_walk_tree;
+            time_profile_.calc_force__core__dispatch += time_dispatch;
             ni_ave_ = ni_tmp / n_ipg;
             nj_ave_ = nj_tmp / n_ipg;
             n_interaction_ep_ep_ += n_interaction_ep_ep_tmp;
-- 
2.43.0


From 280cc294d6c7fe2ff4ae9f41dda3015469cf6cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:18 +0000
Subject: [PATCH 14/27] fix: steps between snapshots truncated below timeSnap /
 dt, or zero

---
 Sylinder/SylinderSystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 109a762..c438174 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -885,7 +885,9 @@ void SylinderSystem::updateSylinderMap() {
 }
 
 bool SylinderSystem::getIfWriteResultCurrentStep() {
-    return (stepCount % static_cast<int>(runConfig.timeSnap / runConfig.dt) == 0);
+    // timeSnap is usually a multiple of dt up to roundoff. never less than one step
+    const int interval = std::max(1, static_cast<int>(runConfig.timeSnap / runConfig.dt + 1e-6));
+    return stepCount % interval == 0;
 }
 
 void SylinderSystem::prepareStep() {
-- 
2.43.0


From 9e3b550ebe38f0c285019e2a26fd119cca85709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:41 +0000
Subject: [PATCH 15/27] fix: replace TimeStepInfo.txt atomically, after all
 ranks wrote the snapshot

---
 Sylinder/SylinderSystem.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index c438174..5026800 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -506,17 +506,22 @@ void SylinderSystem::writeAscii(const std::string &baseFolder) {
 }
 
 void SylinderSystem::writeTimeStepInfo(const std::string &baseFolder) {
+    // the snapshot must be complete on all ranks before a restart may pick it up
+    commRcp->barrier();
     if (commRcp->getRank() == 0) {
         // write a single txt file containing timestep and most recent pvtp file names
+        // write a new file and then replace the old one, there is always a complete file to restart from
         std::string name = baseFolder + std::string("../../TimeStepInfo.txt");
+        std::string nameTemp = name + std::string(".tmp");
         std::string pvtpFileName = std::string("Sylinder_") + std::to_string(snapID) + std::string(".pvtp");
 
-        FILE *restartFile = fopen(name.c_str(), "w");
+        FILE *restartFile = fopen(nameTemp.c_str(), "w");
         fprintf(restartFile, "%u\n", restartRngSeed);
         fprintf(restartFile, "%u\n", stepCount);
         fprintf(restartFile, "%u\n", snapID);
         fprintf(restartFile, "%s\n", pvtpFileName.c_str());
         fclose(restartFile);
+        std::rename(nameTemp.c_str(), name.c_str());
     }
 }
 
-- 
2.43.0


From 7b59d78a68a1cab250b710ed4a9c453ba97fbf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:41 +0000
Subject: [PATCH 16/27] fix: restart on another number of ranks looked for the
 snapshot in another folder

---
 Sylinder/SylinderSystem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 5026800..417b5d7 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -116,6 +116,10 @@ void SylinderSystem::reinitialize(const SylinderConfig &runConfig_, const std::s
     myfile >> snapID;
     myfile >> pvtpFileName;
 
+    // where the snapshot is. not written by older versions
+    std::string baseFolder;
+    myfile >> baseFolder;
+
     // increment the rngSeed forward by one to ensure randomness compared to previous run
     restartRngSeed++;
 
@@ -146,7 +150,8 @@ void SylinderSystem::reinitialize(const SylinderConfig &runConfig_, const std::s
     pos = asciiFileName.find_last_of('_');
     asciiFileName.replace(pos, 1, std::string("Ascii_")); // replace '_' with 'Ascii_'
 
-    std::string baseFolder = getCurrentResultFolder();
+    if (baseFolder.empty())
+        baseFolder = getCurrentResultFolder();
     setInitialFromVTKFile(baseFolder + pvtpFileName);
 
     setLinkMapFromFile(baseFolder + asciiFileName);
@@ -520,6 +525,7 @@ void SylinderSystem::writeTimeStepInfo(const std::string &baseFolder) {
         fprintf(restartFile, "%u\n", stepCount);
         fprintf(restartFile, "%u\n", snapID);
         fprintf(restartFile, "%s\n", pvtpFileName.c_str());
+        fprintf(restartFile, "%s\n", baseFolder.c_str()); // depends on the number of ranks
         fclose(restartFile);
         std::rename(nameTemp.c_str(), name.c_str());
     }
-- 
2.43.0


From 8d2a85ef176113892fc92d9049f570e99b819286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:01 +0000
Subject: [PATCH 17/27] fix: BBPGD returned the iterate before the last one at
 the iteration limit

---
 Collision/CPSolver.cpp    | 4 ++++
 Constraint/BCQPSolver.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index d76ab13..accefe2 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -387,6 +387,10 @@ int CPSolver::LCP_BBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int i
 
         alpha = a / b; // new step size
 
+        if (iteCount == iteMax) {
+            break; // return xk, not the previous iterate
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 9783471..2bcfe5b 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -232,6 +232,10 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
             break;
         }
 
+        if (iteCount == iteMax) {
+            break; // return xk, not the previous iterate
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
-- 
2.43.0


From f6467172e0554dbc0d415b7d8193cb3b57548d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:48 +0000
Subject: [PATCH 18/27] fix: unknowns fixed by equal bounds counted towards the
 BCQP residual

---
 Constraint/BCQPSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 2bcfe5b..dfd9dbb 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -481,7 +481,9 @@ double BCQPSolver::checkProjectionResidual(const Teuchos::RCP<const TV> &XRcp, c
 // EQ 2.2 of Dai & Fletcher 2005
 #pragma omp parallel for
     for (int i = 0; i < ibound; i++) {
-        if (xPtr(i, c) <= lbPtr(i, c) + eps) { // eps vanishes against a large bound
+        if (ubPtr(i, c) - lbPtr(i, c) <= eps) {
+            qPtr(i, c) = 0; // fixed by equal bounds
+        } else if (xPtr(i, c) <= lbPtr(i, c) + eps) { // eps vanishes against a large bound
             qPtr(i, c) = std::min(yPtr(i, c), 0.0);
         } else if (xPtr(i, c) >= ubPtr(i, c) - eps) {
             qPtr(i, c) = std::max(yPtr(i, c), 0.0);
-- 
2.43.0


From e7015ab46c23b68be2db3481e73340f7f0ef1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 19/27] fix: LCP_mmNewton judged convergence by the previous
 iterate, uninitialised at first

---
 Collision/CPSolver.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index accefe2..01e509e 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -661,7 +661,6 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
     double tk = 0;
     while (iteCount++ < iteMax) {
         // check convergence
-        // xkRcp, ykRcp saves last step
 
 #ifdef DEBUGLCPCOL
         // detailed tolerance for debug build
@@ -678,7 +677,7 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
         }
 #else
         // use simple phi tolerance check
-        double resPhi = checkResiduePhi(xkRcp, ykRcp, tempVecRcp);
+        double resPhi = checkResiduePhi(xRcp, yRcp, tempVecRcp);
         history.push_back(std::array<double, 6>{{1.0 * iteCount, 0, 0, tk, resPhi, 1.0 * mvCount}});
         if (tk > 0 && fabs(resPhi) < tol) {
             break;
-- 
2.43.0


From b18066c3b8a1110431f520621952cd19e8a63594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:52 +0000
Subject: [PATCH 20/27] fix: BBPGD for bounds accepted an infeasible initial
 guess as the solution

---
 Constraint/BCQPSolver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index dfd9dbb..7c873fd 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -141,8 +141,9 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
     spdlog::debug("solving APGD");
     spdlog::debug("Constraint operator ARcp is "+ ARcp->description());
 
-    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy));   // deep copy, xk=x0
-    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xkm1=x0
+    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xk=x0
+    boundProjection(xkRcp);                                                 // x0 may be infeasible
+    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xkRcp, Teuchos::Copy)); // deep copy, xkm1=x0
 
     Teuchos::RCP<TV> gradkRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));   // the grad vector
     Teuchos::RCP<TV> gradkm1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // the grad vector
-- 
2.43.0


From 971d0724baba195c60a91d366fdf4105b2ef62e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:01 +0000
Subject: [PATCH 21/27] fix: LCP_APGD never returned when the initial guess is
 all ones

---
 Collision/CPSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index 01e509e..dc29103 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -442,6 +442,9 @@ int CPSolver::LCP_APGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int it
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
     double Lk = (tempNorm2 / xkdiffNorm2);
+    if (!(Lk > 0)) {
+        Lk = 1; // no usable estimate: x0 equals the probe vector, or A maps their difference to zero
+    }
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
-- 
2.43.0


From 45228003bad6cafcc1ea3c355d142d72fac17548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:01 +0000
Subject: [PATCH 22/27] fix: CPMatOp::apply ignored alpha and beta

---
 Collision/CPSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Collision/CPSolver.hpp b/Collision/CPSolver.hpp
index 611a6f6..c5362f8 100644
--- a/Collision/CPSolver.hpp
+++ b/Collision/CPSolver.hpp
@@ -84,7 +84,7 @@ class CPMatOp : public TOP {
             Teuchos::RCP<Teuchos::Time> fcTimer = Teuchos::TimeMonitor::getNewCounter("BBPGD::OP::FcTrans Apply");
             {
                 Teuchos::TimeMonitor mon(*fcTimer);
-                fcTransRcp->apply(*velVecRcp, *YcolRcp);
+                fcTransRcp->apply(*velVecRcp, *YcolRcp, Teuchos::NO_TRANS, alpha, beta);
             }
             // fcTransRcp->apply(*XcolRcp, *forceVecRcp, Teuchos::TRANS);
             // mobRcp->apply(*forceVecRcp, *velVecRcp);
-- 
2.43.0


From 224d3909cdd06904d38d901e2016e114c31767e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 23/27] fix: image of a particle at the box face was guessed
 from its rounded position

---
 FDPS/tree_for_force_impl.hpp   | 10 ++++++----
 FDPS/tree_for_force_utils2.hpp | 23 +++++++++++------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/FDPS/tree_for_force_impl.hpp b/FDPS/tree_for_force_impl.hpp
index eb465b1..3ed403b 100644
--- a/FDPS/tree_for_force_impl.hpp
+++ b/FDPS/tree_for_force_impl.hpp
@@ -1497,6 +1497,7 @@ namespace ParticleSimulator{
         static ReallocatableArray<S32> n_ep_send_per_image_1st;
         static ReallocatableArray<S32> n_ep_send_per_image_2nd;
         static ReallocatableArray<Tepj> ep_recv_1st;
+        static ReallocatableArray<F64vec> shift_recv_1st;
         
         if(!flag_reuse){
             ////////////
@@ -1511,13 +1512,13 @@ namespace ParticleSimulator{
             ExchangeNumber(n_ep_send_per_proc_1st, n_ep_recv_per_proc_1st);
             ExchangeParticle(epj_sorted_, n_ep_send_per_proc_1st, n_ep_recv_per_proc_1st,
                              n_ep_send_per_image_1st,
-                             adr_ep_send_1st, ep_recv_1st,
+                             adr_ep_send_1st, ep_recv_1st, shift_recv_1st,
                              shift_per_image_1st,
                              n_image_per_proc_1st);
             ////////////
             // 2nd STEP (send j particles)
             FindExchangeParticleDoubleWalk<TreeCell<Tmomloc>, TreeParticle, Tepj>
-                (ep_recv_1st, tc_loc_, n_ep_recv_per_proc_1st, n_image_per_proc_1st, dinfo,
+                (ep_recv_1st, shift_recv_1st, tc_loc_, n_ep_recv_per_proc_1st, n_image_per_proc_1st, dinfo,
                  n_leaf_limit_,
                  n_ep_send_per_proc_2nd, n_ep_send_per_image_2nd,
                  n_image_per_proc_2nd,
@@ -1667,6 +1668,7 @@ namespace ParticleSimulator{
         static ReallocatableArray<S32> n_ep_send_per_image_1st;
         static ReallocatableArray<S32> n_ep_send_per_image_2nd;
         static ReallocatableArray<EssentialParticleBase> ep_recv_1st;
+        static ReallocatableArray<F64vec> shift_recv_1st;
         static ReallocatableArray<EssentialParticleBase> epi_base_sorted;
         const S32 n_epi_sorted = epi_sorted_.size();
         epi_base_sorted.resizeNoInitialize(n_epi_sorted);
@@ -1697,7 +1699,7 @@ namespace ParticleSimulator{
             // exchange epi_base particles
             ExchangeParticle(epi_base_sorted, n_ep_send_per_proc_1st, n_ep_recv_per_proc_1st,
                              n_ep_send_per_image_1st,
-                             adr_ep_send_1st, ep_recv_1st,
+                             adr_ep_send_1st, ep_recv_1st, shift_recv_1st,
                              shift_per_image_1st,
                              n_image_per_proc_1st);
 
@@ -1706,7 +1708,7 @@ namespace ParticleSimulator{
             ////////////
             // 2nd STEP (find j particle)
             FindExchangeParticleDoubleWalk<TreeCell<Tmomloc>, TreeParticle, EssentialParticleBase>
-                (ep_recv_1st, tc_loc_, n_ep_recv_per_proc_1st, n_image_per_proc_1st, dinfo,
+                (ep_recv_1st, shift_recv_1st, tc_loc_, n_ep_recv_per_proc_1st, n_image_per_proc_1st, dinfo,
                  n_leaf_limit_,
                  n_ep_send_per_proc_2nd, n_ep_send_per_image_2nd,
                  n_image_per_proc_2nd,
diff --git a/FDPS/tree_for_force_utils2.hpp b/FDPS/tree_for_force_utils2.hpp
index 6093cac..3c83009 100644
--- a/FDPS/tree_for_force_utils2.hpp
+++ b/FDPS/tree_for_force_utils2.hpp
@@ -608,6 +608,7 @@ namespace ParticleSimulator{
                                  const ReallocatableArray<S32> & n_ep_per_image,
                                  const ReallocatableArray<S32> & adr_ep_send,
                                  ReallocatableArray<Tep> & ep_recv,
+                                 ReallocatableArray<F64vec> & shift_recv, // image each received particle belongs to
                                  const ReallocatableArray<F64vec> & shift_image_domain,
                                  const ReallocatableArray<S32> & n_image_per_proc){
         const S32 n_proc = Comm::getNumberOfProc();
@@ -625,6 +626,7 @@ namespace ParticleSimulator{
             n_disp_ep_per_image[i+1] = n_disp_ep_per_image[i] +  n_ep_per_image[i];
         }
         ReallocatableArray<Tep> ep_send( n_disp_ep_send[n_proc], n_disp_ep_send[n_proc], 1 );
+        ReallocatableArray<F64vec> shift_send( n_disp_ep_send[n_proc], n_disp_ep_send[n_proc], 1 );
 #ifdef PARTICLE_SIMULATOR_THREAD_PARALLEL
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
@@ -636,15 +638,20 @@ namespace ParticleSimulator{
                 S32 adr = adr_ep_send[n_ep_offset+j];
                 ep_send[n_ep_offset+j] = ep[adr];
                 ep_send[n_ep_offset+j].setPos(ep[adr].getPos() - shift);
+                shift_send[n_ep_offset+j] = F64vec(0.0) - shift;
             }
         }
         ep_recv.resizeNoInitialize( n_disp_ep_recv[n_proc] );
         Comm::allToAllV(ep_send.getPointer(), n_ep_send.getPointer(), n_disp_ep_send.getPointer(),
                         ep_recv.getPointer(), n_ep_recv.getPointer(), n_disp_ep_recv.getPointer());
+        shift_recv.resizeNoInitialize( n_disp_ep_recv[n_proc] );
+        Comm::allToAllV(shift_send.getPointer(), n_ep_send.getPointer(), n_disp_ep_send.getPointer(),
+                        shift_recv.getPointer(), n_ep_recv.getPointer(), n_disp_ep_recv.getPointer());
     }
 
     template<class Ttc, class Ttp, class Tepj>
     inline void FindExchangeParticleDoubleWalk(const ReallocatableArray<Tepj> & epj_A, // received particles
+                                               const ReallocatableArray<F64vec> & shift_A, // image of each of them
                                                const ReallocatableArray<Ttc> & tc_first_B,
                                                const ReallocatableArray<S32> & n_epj_src_per_proc,
                                                const ReallocatableArray<S32> & n_image_send_per_proc_irnai, // not needed
@@ -672,8 +679,6 @@ namespace ParticleSimulator{
         }
         */
         const S32 n_thread = Comm::getNumberOfThread();
-        const F64ort pos_root_domain = dinfo.getPosRootDomain();
-        const F64vec len_root_domain = pos_root_domain.getFullLength();
         n_image_send_per_proc.resizeNoInitialize(n_proc);
         n_epj_send_per_proc.resizeNoInitialize(n_proc);
         ReallocatableArray<S32> n_disp_epj_per_proc;
@@ -758,20 +763,14 @@ namespace ParticleSimulator{
                 if( n_epj_src_per_proc[rank_tmp] <= 0) continue;
                 const S32 adr_ptcl_head = n_disp_epj_per_proc[rank_tmp];
                 const S32 adr_ptcl_end = n_disp_epj_per_proc[rank_tmp+1];
-                S32vec id_image_old = -9999;
                 S32 n_image = 0;
                 for(S32 ip=adr_ptcl_head; ip<adr_ptcl_end; ip++){
-                    const F64vec pos_target = epj_A[ip].getPos();
-                    const S32vec id_image_new = CalcIDOfImageDomain(pos_root_domain, pos_target, pa);
-                    if(id_image_old != id_image_new){
+                    // the image is the one the sender shifted the particle by: the rounded
+                    // position of a particle at the edge of the domain does not tell it
+                    if(n_image == 0 || shift_A[ip] != shift_A[ip-1]){
                         adr_epj_src_per_image_tmp[ith].push_back(ip);
                         n_epj_src_per_image_tmp[ith].push_back(0);
-#ifdef PARTICLE_SIMULATOR_TWO_DIMENSION
-                        shift_per_image_tmp[ith].push_back(F64vec(id_image_new.x*len_root_domain.x, id_image_new.y*len_root_domain.y));
-#else
-                        shift_per_image_tmp[ith].push_back(F64vec(id_image_new.x*len_root_domain.x, id_image_new.y*len_root_domain.y, id_image_new.z*len_root_domain.z));
-#endif
-                        id_image_old = id_image_new;
+                        shift_per_image_tmp[ith].push_back(shift_A[ip]);
                         n_image++;
                     }
                     n_epj_src_per_image_tmp[ith].back()++;
-- 
2.43.0


From 30344407d74fe28b1b9fc1a7ba6db311fff80d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:47 +0000
Subject: [PATCH 24/27] fix: particles exactly on a boundary or a tube axis got
 a wall contact without direction

---
 Boundary/Boundary.cpp | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/Boundary/Boundary.cpp b/Boundary/Boundary.cpp
index 4a6fc87..96dc955 100644
--- a/Boundary/Boundary.cpp
+++ b/Boundary/Boundary.cpp
@@ -1,8 +1,10 @@
 #include "Boundary.hpp"
 #include "Util/EigenDef.hpp"
 
+#include <algorithm>
 #include <limits>
 constexpr double eps = std::numeric_limits<double>::epsilon() * 1e4;
+constexpr double tiny = 1e-100; // length of delta for a query on the boundary, which still has a direction
 
 /************************************************************
  *
@@ -24,12 +26,11 @@ void SphereShell::initialize(const YAML::Node &config) {
 void SphereShell::project(const double query[3], double project[3], double delta[3]) const {
     Evec3 Query = ECmap3(query) - ECmap3(center); // center to query
     double QueryR = Query.norm();
-    Evec3 Proj = radius * (1 / QueryR) * Query; // radius * norm direction of Query
-    Evec3 PQ = Query - Proj;
-    bool out = QueryR > radius;
-    if ((inside && out) || (!inside && !out)) {
-        PQ *= -1;
-    }
+    Evec3 Direction = Evec3(0, 0, 1); // at the center any direction is as good as another
+    if (QueryR > 0)
+        Direction = Query * (1 / QueryR);
+    Evec3 Proj = radius * Direction;
+    Evec3 PQ = (inside ? -1 : 1) * std::max(fabs(QueryR - radius), tiny) * Direction;
     Proj += ECmap3(center);
     project[0] = Proj[0];
     project[1] = Proj[1];
@@ -106,10 +107,7 @@ void Wall::project(const double query[3], double project[3], double delta[3]) co
     Evec3 CQ = Query - ECmap3(center);
     double t = CQ.dot(ECmap3(norm));
     Evec3 Proj = Query - t * ECmap3(norm);
-    Evec3 PQ = Query - Proj;
-    if (t < 0) {
-        PQ *= -1;
-    }
+    Evec3 PQ = std::max(fabs(t), tiny) * ECmap3(norm);
     project[0] = Proj[0];
     project[1] = Proj[1];
     project[2] = Proj[2];
@@ -178,17 +176,12 @@ void Tube::project(const double query[3], double project[3], double delta_[3]) c
     double t = (Query - ECmap3(center)).dot(ECmap3(axis));
     Evec3 ProjAxis = ECmap3(center) + t * ECmap3(axis);
     Evec3 ProjAxisQ = Query - ProjAxis;
-    Evec3 Proj = ProjAxis + radius * (ProjAxisQ.normalized());
-    Evec3 delta = Query - Proj;
-    if (ProjAxisQ.norm() > radius) { // Q is outside the tube
-        if (inside) {
-            delta *= -1;
-        }
-    } else { // Q is inside the tube
-        if (!inside) {
-            delta *= -1;
-        }
-    }
+    const double QueryR = ProjAxisQ.norm();
+    Evec3 Direction = ECmap3(axis).unitOrthogonal(); // on the axis any direction is as good as another
+    if (QueryR > 0)
+        Direction = ProjAxisQ * (1 / QueryR);
+    Evec3 Proj = ProjAxis + radius * Direction;
+    Evec3 delta = (inside ? -1 : 1) * std::max(fabs(QueryR - radius), tiny) * Direction;
     project[0] = Proj[0];
     project[1] = Proj[1];
     project[2] = Proj[2];
-- 
2.43.0


From 55b0c724511224dbb7c525b06a7eb979b50479e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 25/27] fix: linked particles exactly half a period apart ended
 the run through roundoff

---
 Sylinder/SylinderSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 417b5d7..02da6a5 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1462,8 +1462,8 @@ void SylinderSystem::collectLinkBilateral() {
                     double xk = centerJ[k];
                     findPBCImage(runConfig.simBoxLow[k], runConfig.simBoxHigh[k], xk, trg);
                     centerJ[k] = xk;
-                    // error check
-                    if (fabs(trg - xk) > 0.5 * (runConfig.simBoxHigh[k] - runConfig.simBoxLow[k])) {
+                    // error check. half a period apart is fine up to roundoff
+                    if (fabs(trg - xk) > (0.5 + 1e-8) * (runConfig.simBoxHigh[k] - runConfig.simBoxLow[k])) {
                         spdlog::critical("pbc image error in bilateral links");
                         std::exit(1);
                     }
-- 
2.43.0


From 6e99dae813d51b02545cdfe96a7f1fc21b99f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:43 +0000
Subject: [PATCH 26/27] fix: accelerated gradient solvers halved the step
 forever once roundoff hid the descent condition

---
 Collision/CPSolver.cpp    | 3 +++
 Constraint/BCQPSolver.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index dc29103..437757e 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -485,6 +485,9 @@ int CPSolver::LCP_APGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int it
             if ((leftTerm1 + leftTerm2) <= (rightTerm1 + rightTerm2 + rightTerm3 + rightTerm4)) {
                 break;
             }
+            if (tk < std::numeric_limits<double>::epsilon() * 10) {
+                break; // roundoff hides the condition, halving tk further never satisfies it
+            }
             // line 10 & 11 of Mazhar, 2015
             Lk *= 2;
             tk = 1 / Lk;
diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 7c873fd..135055d 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -330,6 +330,9 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
             if ((leftTerm1 + leftTerm2) <= (rightTerm1 + rightTerm2 + rightTerm3 + rightTerm4)) {
                 break;
             }
+            if (tk < std::numeric_limits<double>::epsilon() * 10) {
+                break; // roundoff hides the condition, halving tk further never satisfies it
+            }
             // line 10 & 11 of Mazhar, 2015
             Lk *= 2;
             tk = 1 / Lk;
-- 
2.43.0


From 038a59ac91f5fc1464b627d8e423799a7700d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:47 +0000
Subject: [PATCH 27/27] fix: a full disk or a failed write must not cost the
 last complete snapshot

Write errors were ignored: on a full disk an empty restart file replaced the
good one, and the restart file could name a snapshot with missing pieces. The
program now stops with an error before the restart file is replaced.
---
 Constraint/ConstraintCollector.cpp |  8 +++---
 FDPS/particle_system.hpp           | 18 ++++++++++--
 Sylinder/Sylinder.hpp              |  8 +++---
 Sylinder/SylinderSystem.cpp        | 18 +++++++-----
 Util/IOHelper.hpp                  | 45 +++++++++++++++++++++++++++---
 5 files changed, 75 insertions(+), 22 deletions(-)

diff --git a/Constraint/ConstraintCollector.cpp b/Constraint/ConstraintCollector.cpp
index 5836f4e..f5bbcde 100644
--- a/Constraint/ConstraintCollector.cpp
+++ b/Constraint/ConstraintCollector.cpp
@@ -183,9 +183,9 @@ void ConstraintCollector::writeVTP(const std::string &folder, const std::string
         }
     }
 
-    std::ofstream file(folder + '/' + prefix + std::string("ConBlock_") + "r" + std::to_string(rank) +
-                           std::string("_") + postfix + std::string(".vtp"),
-                       std::ios::out);
+    const std::string fileName = folder + '/' + prefix + std::string("ConBlock_") + "r" + std::to_string(rank) +
+                                 std::string("_") + postfix + std::string(".vtp");
+    std::ofstream file(fileName, std::ios::out);
 
     IOHelper::writeHeadVTP(file);
 
@@ -220,7 +220,7 @@ void ConstraintCollector::writeVTP(const std::string &folder, const std::string
     file << "</Piece>\n";
 
     IOHelper::writeTailVTP(file);
-    file.close();
+    IOHelper::closeFile(file, fileName);
 }
 
 void ConstraintCollector::dumpBlocks() const {
diff --git a/FDPS/particle_system.hpp b/FDPS/particle_system.hpp
index 8c54951..47d8e97 100644
--- a/FDPS/particle_system.hpp
+++ b/FDPS/particle_system.hpp
@@ -379,7 +379,11 @@ namespace ParticleSimulator{
                         //ptcl[i].writeAscii(fp);
                         (ptcl[i].*pFuncPtcl)(fp);
                     }
-                    fclose(fp);
+                    const bool write_error = ferror(fp);
+                    if(fclose(fp) != 0 || write_error){
+                        PARTICLE_SIMULATOR_PRINT_ERROR("can not write output file");
+                        Abort(-1);
+                    }
                 }
                 delete [] n_ptcl;
                 delete [] n_ptcl_displs;
@@ -394,7 +398,11 @@ namespace ParticleSimulator{
                         //ptcl_[i].writeAscii(fp);
                         (ptcl_[i].*pFuncPtcl)(fp);
                     }
-                    fclose(fp);
+                    const bool write_error = ferror(fp);
+                    if(fclose(fp) != 0 || write_error){
+                        PARTICLE_SIMULATOR_PRINT_ERROR("can not write output file");
+                        Abort(-1);
+                    }
                 }
                 #endif
             }else{
@@ -412,7 +420,11 @@ namespace ParticleSimulator{
                     //ptcl_[i].writeAscii(fp);
                     (ptcl_[i].*pFuncPtcl)(fp);
                 }
-                fclose(fp);
+                const bool write_error = ferror(fp);
+                if(fclose(fp) != 0 || write_error){
+                    PARTICLE_SIMULATOR_PRINT_ERROR("can not write output file");
+                    Abort(-1);
+                }
             }
         }
         //write
diff --git a/Sylinder/Sylinder.hpp b/Sylinder/Sylinder.hpp
index 96c2c6e..a3bfc88 100644
--- a/Sylinder/Sylinder.hpp
+++ b/Sylinder/Sylinder.hpp
@@ -392,9 +392,9 @@ class Sylinder {
             }
         }
 
-        std::ofstream file(prefix + std::string("Sylinder_") + "r" + std::to_string(rank) + std::string("_") + postfix +
-                               std::string(".vtp"),
-                           std::ios::out);
+        const std::string fileName = prefix + std::string("Sylinder_") + "r" + std::to_string(rank) + std::string("_") +
+                                     postfix + std::string(".vtp");
+        std::ofstream file(fileName, std::ios::out);
 
         IOHelper::writeHeadVTP(file);
 
@@ -449,7 +449,7 @@ class Sylinder {
         file << "</Piece>\n";
 
         IOHelper::writeTailVTP(file);
-        file.close();
+        IOHelper::closeFile(file, fileName);
     }
 };
 
diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 02da6a5..75bea5b 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -501,11 +501,11 @@ void SylinderSystem::writeAscii(const std::string &baseFolder) {
     header.time = stepCount * runConfig.dt;
     sylinderContainer.writeParticleAscii(name.c_str(), header);
     if (commRcp->getRank() == 0) {
-        FILE *fptr = fopen(name.c_str(), "a");
+        FILE *fptr = IOHelper::openFile(name, "a");
         for (const auto &key_value : linkMap) {
             fprintf(fptr, "L %d %d\n", key_value.first, key_value.second);
         }
-        fclose(fptr);
+        IOHelper::closeFile(fptr, name);
     }
     commRcp->barrier();
 }
@@ -520,14 +520,17 @@ void SylinderSystem::writeTimeStepInfo(const std::string &baseFolder) {
         std::string nameTemp = name + std::string(".tmp");
         std::string pvtpFileName = std::string("Sylinder_") + std::to_string(snapID) + std::string(".pvtp");
 
-        FILE *restartFile = fopen(nameTemp.c_str(), "w");
+        FILE *restartFile = IOHelper::openFile(nameTemp, "w");
         fprintf(restartFile, "%u\n", restartRngSeed);
         fprintf(restartFile, "%u\n", stepCount);
         fprintf(restartFile, "%u\n", snapID);
         fprintf(restartFile, "%s\n", pvtpFileName.c_str());
         fprintf(restartFile, "%s\n", baseFolder.c_str()); // depends on the number of ranks
-        fclose(restartFile);
-        std::rename(nameTemp.c_str(), name.c_str());
+        IOHelper::closeFile(restartFile, nameTemp);
+        if (std::rename(nameTemp.c_str(), name.c_str()) != 0) {
+            spdlog::critical("can not replace {}", name);
+            std::exit(1);
+        }
     }
 }
 
@@ -544,7 +547,8 @@ void SylinderSystem::writeVTK(const std::string &baseFolder) {
 }
 
 void SylinderSystem::writeBox() {
-    FILE *boxFile = fopen("./result/simBox.vtk", "w");
+    const std::string name = "./result/simBox.vtk";
+    FILE *boxFile = IOHelper::openFile(name, "w");
     fprintf(boxFile, "# vtk DataFile Version 3.0\n");
     fprintf(boxFile, "vtk file\n");
     fprintf(boxFile, "ASCII\n");
@@ -558,7 +562,7 @@ void SylinderSystem::writeBox() {
     fprintf(boxFile, "%g %g\n", runConfig.simBoxLow[2], runConfig.simBoxHigh[2]);
     fprintf(boxFile, "CELL_DATA 1\n");
     fprintf(boxFile, "POINT_DATA 8\n");
-    fclose(boxFile);
+    IOHelper::closeFile(boxFile, name);
 }
 
 void SylinderSystem::writeResult() {
diff --git a/Util/IOHelper.hpp b/Util/IOHelper.hpp
index 943b388..89041c0 100644
--- a/Util/IOHelper.hpp
+++ b/Util/IOHelper.hpp
@@ -15,6 +15,8 @@
 #include "Logger.hpp"
 
 #include <array>
+#include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <fstream>
 #include <iostream>
@@ -60,6 +62,41 @@ class IOHelper {
         return f.good();
     }
 
+    /**
+     * @brief open a file to write
+     *
+     * the program ends if the file can not be opened
+     */
+    static FILE *openFile(const std::string &name, const char *mode) {
+        FILE *file = fopen(name.c_str(), mode);
+        if (file == nullptr) {
+            spdlog::critical("can not open {} to write, errno: {}", name, errno);
+            std::exit(1);
+        }
+        return file;
+    }
+
+    /**
+     * @brief close a written file
+     *
+     * the program ends if anything is missing in the file, e.g., because the disk is full
+     */
+    static void closeFile(FILE *file, const std::string &name) {
+        const bool writeError = ferror(file);
+        if (fclose(file) != 0 || writeError) {
+            spdlog::critical("can not write {}", name);
+            std::exit(1);
+        }
+    }
+
+    static void closeFile(std::ofstream &file, const std::string &name) {
+        file.close();
+        if (!file) {
+            spdlog::critical("can not write {}", name);
+            std::exit(1);
+        }
+    }
+
     static void makeSubFolder(const std::string folder) {
 
         const int err = mkdir(folder.c_str(), 0755); // make one folder at a time. parent folder must exist
@@ -123,7 +160,7 @@ class IOHelper {
         }
         pvtufile << "</PUnstructuredGrid>\n";
         pvtufile << "</VTKFile>\n";
-        pvtufile.close();
+        closeFile(pvtufile, filename);
     }
 
     // overload, some are point data, some are cell data
@@ -171,7 +208,7 @@ class IOHelper {
         }
         pvtufile << "</PUnstructuredGrid>\n";
         pvtufile << "</VTKFile>\n";
-        pvtufile.close();
+        closeFile(pvtufile, filename);
     }
 
     /*******************************
@@ -220,7 +257,7 @@ class IOHelper {
         }
         pvtufile << "</PPolyData>\n";
         pvtufile << "</VTKFile>\n";
-        pvtufile.close();
+        closeFile(pvtufile, filename);
     }
 
     // overload, some are point data, some are cell data
@@ -259,7 +296,7 @@ class IOHelper {
         }
         pvtufile << "</PPolyData>\n";
         pvtufile << "</VTKFile>\n";
-        pvtufile.close();
+        closeFile(pvtufile, filename);
     }
 
     /**
-- 
2.43.0

