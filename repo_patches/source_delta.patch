From 9b5e198f098bf196f1d883516c25af533b357499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:31 +0000
Subject: [PATCH 01/48] fix: local linear index of a global linear index on
 decomposed grids

The global multi-index was linearized with the local strides and then shifted by a
global offset, which is only right on undecomposed grids.
---
 src/fullgrid/DistributedFullGrid.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index ecf061a..6e9473f 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -811,9 +811,11 @@ IndexType DistributedFullGrid<FG_ELEMENT>::getLocalLinearIndex(IndexType globLin
   globAxisIndex.resize(dim_);
   getGlobalVectorIndex(globLinIndex, globAxisIndex);
 
-  if (this->isGlobalIndexHere(globAxisIndex)) {
+  static thread_local IndexVector locAxisIndex(dim_);
+  locAxisIndex.resize(dim_);
+  if (this->getLocalVectorIndex(globAxisIndex, locAxisIndex)) {
     // convert to local linear index
-    return getLocalLinearIndex(globAxisIndex) - this->myPartitionsFirstGlobalIndex_;
+    return getLocalLinearIndex(locAxisIndex);
   } else {
     return -1;
   }
-- 
2.43.0


From f1964509d901366d09dd5296c1967bdbcbeacd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:31 +0000
Subject: [PATCH 02/48] fix: write plot file header as dimension plus one int
 per dimension

The header wrote one byte and six ints regardless of the dimension: it read beyond the
resolution vector, did not match the readers or the data offset, and overwrote values
for less than six dimensions.
---
 src/fullgrid/DistributedFullGrid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 6e9473f..b20e061 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1450,10 +1450,11 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
   } else {
     // rank 0 write dim and resolution (and data format?)
     if (this->getRank() == 0) {
-      MPI_File_write(fh, &dim, 1, MPI_UNSIGNED_CHAR, MPI_STATUS_IGNORE);
+      int dimAsInt = static_cast<int>(dim);
+      MPI_File_write(fh, &dimAsInt, 1, MPI_INT, MPI_STATUS_IGNORE);
 
       std::vector<int> res(csizes.begin(), csizes.end());
-      MPI_File_write(fh, &res[0], 6, MPI_INT, MPI_STATUS_IGNORE);
+      MPI_File_write(fh, res.data(), static_cast<int>(res.size()), MPI_INT, MPI_STATUS_IGNORE);
     }
 
     // set file view to right offset (in bytes)
-- 
2.43.0


From 8419ea57e67c69ffeb604edd0dad64f35cd578b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:31 +0000
Subject: [PATCH 03/48] fix: evaluate one-sided (periodic) grids at the upper
 domain boundary

At coordinate 1.0 the lower neighbor itself is the wrapped-around point, which was
treated as outside, so the value was 0.
---
 src/fullgrid/DistributedFullGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index b20e061..1e095b2 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1120,7 +1120,7 @@ FG_ELEMENT DistributedFullGrid<FG_ELEMENT>::evalIndexAndAllUpperNeighbors(
       if (iterateIndexInThisDimension < 0) {
         phi_c = 0.;
         break;
-      } else if (isUpperInDim && this->hasBoundaryPoints_[d] == 1 &&
+      } else if (this->hasBoundaryPoints_[d] == 1 &&
                  //  this->getCartesianUtils().isOnLowerBoundaryInDimension(d) &&
                  iterateIndexInThisDimension == this->getGlobalSizes()[d]) {
         // if we have a wrap-around AND are on the lowest cartesian process in this dimension
-- 
2.43.0


From 6d5782b970d7d097f7bacca29cd35f6f6c0bdecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:31 +0000
Subject: [PATCH 04/48] fix: use the biorthogonal kernels for the non-periodic
 biorthogonal basis

The dispatch used the full weighting kernels instead.
---
 src/hierarchization/DistributedHierarchization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hierarchization/DistributedHierarchization.hpp b/src/hierarchization/DistributedHierarchization.hpp
index fb4f719..0234385 100644
--- a/src/hierarchization/DistributedHierarchization.hpp
+++ b/src/hierarchization/DistributedHierarchization.hpp
@@ -1165,7 +1165,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  hierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  hierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
@@ -1247,7 +1247,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  dehierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  dehierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
-- 
2.43.0


From 29b2acea936b9f79f71ef3893f0d6ebbca8d0a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:12 +0000
Subject: [PATCH 05/48] fix: hierarchize and dehierarchize all grids of a task,
 not only the first

---
 src/manager/ProcessGroupWorker.cpp | 1 +
 src/manager/TaskWorker.hpp         | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index bb58c70..7195387 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -676,6 +676,7 @@ template <typename CombiDataType>
 void ProcessGroupWorker<CombiDataType>::setCombiParameters(CombiParameters&& combiParameters) {
   combiParameters_ = std::move(combiParameters);
   combiParametersSet_ = true;
+  this->getTaskWorker().setNumberOfGridsPerTask(combiParameters_.getNumGrids());
 
   // overwrite local comm with cartesian communicator
   if (combiParameters_.isParallelizationSet()) {
diff --git a/src/manager/TaskWorker.hpp b/src/manager/TaskWorker.hpp
index f250f25..34d6a4a 100644
--- a/src/manager/TaskWorker.hpp
+++ b/src/manager/TaskWorker.hpp
@@ -140,6 +140,13 @@ class TaskWorker {
     }
   }
 
+  /**
+   * @brief set the number of grids (species) per task
+   */
+  inline void setNumberOfGridsPerTask(size_t numGrids) {
+    numGridsPerTask_ = static_cast<int>(numGrids);
+  }
+
  private:
   std::vector<std::unique_ptr<Task<CombiDataType>>> tasks_{};  /// task storage
   int numGridsPerTask_ = 1;
-- 
2.43.0


From 13ae3c5cd121393dfaab8924d42d537696241ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:40 +0000
Subject: [PATCH 06/48] fix: count level-1 points below a process border
 correctly in DOF prediction

---
 src/combischeme/CombiMinMaxScheme.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.hpp b/src/combischeme/CombiMinMaxScheme.hpp
index c1ace2c..c7b3bc5 100644
--- a/src/combischeme/CombiMinMaxScheme.hpp
+++ b/src/combischeme/CombiMinMaxScheme.hpp
@@ -302,9 +302,9 @@ inline IndexType getHighestIndexInHierarchicalSubspaceLowerThanNodalIndexOnLref(
     }
   } else if (hierarchicalSubspaceLevel == 1) {
     if (nodalIndex > 0) {
-      if (nodalIndex >= (powerOfTwo[referenceLevel])) {
+      if (nodalIndex > (powerOfTwo[referenceLevel])) {
         index = 2;
-      } else if (nodalIndex >= (powerOfTwo[referenceLevel] / 2)) {
+      } else if (nodalIndex > (powerOfTwo[referenceLevel] / 2)) {
         index = 1;
       } else {
         index = 0;
-- 
2.43.0


From c9f6808ff00e0144bed44bf149fa349c40b72b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:40 +0000
Subject: [PATCH 07/48] fix: build combination schemes correctly for
 anisotropic level ranges and dummy dimensions

---
 src/combischeme/CombiMinMaxScheme.cpp | 47 +++++++++++++++++++--------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 35ebc4b..01f1fb4 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -22,7 +22,8 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
   }
   if (lmintmp.empty()) {
     assert(lmin_ == lmax_);
-    levels_.push_back(lmin_);
+    levels_ = combigrid::getDownSet(lmin_);
+    combiSpaces_.push_back(lmin_);
     coefficients_.push_back(1.0);
     return;
   }
@@ -42,11 +43,16 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
   combigrid::createTruncatedHierarchicalLevels(lmaxtmp, lmintmp, levels_);
 
   // re-insert dummy dimensions left out
-  for (size_t i = 0; i < dummyDims.size(); ++i) {
-    for (size_t j = 0; j < levels_.size(); ++j) {
-      levels_[j].insert(levels_[j].begin() + dummyDims[i], lmax_[i]);
+  for (const auto& dummyDim : dummyDims) {
+    std::vector<LevelVector> levelsWithDummy;
+    for (const auto& level : levels_) {
+      for (LevelType dummyLevel = 1; dummyLevel <= lmax_[dummyDim]; ++dummyLevel) {
+        levelsWithDummy.push_back(level);
+        levelsWithDummy.back().insert(levelsWithDummy.back().begin() + dummyDim, dummyLevel);
+      }
     }
-    lmin_[dummyDims[i]] = lmax_[i];
+    levels_ = std::move(levelsWithDummy);
+    lmin_[dummyDim] = lmax_[dummyDim];
   }
   n_ = static_cast<LevelType>(combigrid::levelSum(lmin_) + c);
   // create combi spaces
@@ -72,18 +78,31 @@ LevelVector getFurthestCorner(LevelVector& lmax, LevelVector& lmin) {
   return lm;
 }
 
+// recursively generate all levels l <= lmax whose sum, counting at least lmin in every dimension,
+// does not exceed n
+static void createAdaptiveDownSetRec(LevelType n, LevelVector& l, const LevelVector& lmax,
+                                     const LevelVector& lmin, std::vector<LevelVector>& created) {
+  auto d = l.size();
+  if (d == lmax.size()) {
+    created.push_back(l);
+    return;
+  }
+  LevelType levelSum = 0;
+  for (size_t i = 0; i < lmax.size(); ++i) {
+    levelSum = static_cast<LevelType>(levelSum + (i < d ? std::max(l[i], lmin[i]) : lmin[i]));
+  }
+  for (LevelType ldim = 1; ldim <= lmax[d] && levelSum + std::max(0, ldim - lmin[d]) <= n; ++ldim) {
+    l.push_back(ldim);
+    createAdaptiveDownSetRec(n, l, lmax, lmin, created);
+    l.pop_back();
+  }
+}
+
 void CombiMinMaxScheme::createAdaptiveCombischeme() {
   LevelVector lm = getFurthestCorner(lmax_, lmin_);
   n_ = std::accumulate(lm.begin(), lm.end(), static_cast<LevelType>(0)); // = sum(lmin_) + max(ldiff)
-  LevelVector l(dim_);
-  // // TODO: Why levelSum-1 ?
-  // createLevelsRec(dim_, n_ - 1, dim_, l, lmax_);
-  auto n = static_cast<LevelType>(n_ - combigrid::levelSum(lmin_));
-  auto rlmin = lmax_;
-  for (auto& rl: rlmin) {
-    rl = static_cast<LevelType>(rl - n);
-  }
-  combigrid::createTruncatedHierarchicalLevels(lmax_, rlmin, levels_);
+  LevelVector l;
+  createAdaptiveDownSetRec(n_, l, lmax_, lmin_, levels_);
 
   for (auto level : levels_) {
     int l1norm = std::accumulate(level.begin(), level.end(), 0);
-- 
2.43.0


From 4241c37cee6c36d3fb2d7a00a3dca33d068a3e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:40 +0000
Subject: [PATCH 08/48] fix: endless loop in classical coefficients for more
 than 255 grids

---
 src/combischeme/CombiMinMaxScheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 01f1fb4..a1593e0 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -157,7 +157,7 @@ void CombiMinMaxScheme::computeCombiCoeffsAdaptive() {
 }
 
 void CombiMinMaxScheme::computeCombiCoeffsClassical() {
-  for (DimType i = 0; i < combiSpaces_.size(); ++i) {
+  for (size_t i = 0; i < combiSpaces_.size(); ++i) {
     LevelType l1 = combigrid::levelSum(combiSpaces_[i]);
     auto p = static_cast<LevelType>(n_ - l1);
     // Classical combination coefficients
-- 
2.43.0


From 89bbbe8030c685185e8993fc2fa96bea3c335098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:40 +0000
Subject: [PATCH 09/48] fix: let HypercubeDownSetGenerator visit all levels of
 anisotropic boxes

---
 src/utils/LevelSetUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/LevelSetUtils.hpp b/src/utils/LevelSetUtils.hpp
index caaf01b..57bc69d 100644
--- a/src/utils/LevelSetUtils.hpp
+++ b/src/utils/LevelSetUtils.hpp
@@ -130,8 +130,7 @@ class HypercubeDownSetGenerator {
 
  private:
   bool isFinished() {
-    return std::all_of(currentLevel_.begin(), currentLevel_.end(),
-                       [this](const LevelType& l) { return l == levelUpTo_[0]; });
+    return std::equal(currentLevel_.begin(), currentLevel_.end(), levelUpTo_.begin());
   }
 
   const LevelVector levelUpTo_;
-- 
2.43.0


From 51ef72566a5559dbd92943f251a3fbfb7c546de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:34 +0000
Subject: [PATCH 10/48] fix: sum up long durations without integer overflow in
 AverageOfLastNLoadModel

---
 src/loadmodel/AverageOfLastNLoadModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loadmodel/AverageOfLastNLoadModel.cpp b/src/loadmodel/AverageOfLastNLoadModel.cpp
index 9b33904..d8d55e0 100644
--- a/src/loadmodel/AverageOfLastNLoadModel.cpp
+++ b/src/loadmodel/AverageOfLastNLoadModel.cpp
@@ -29,7 +29,7 @@ std::chrono::microseconds AverageOfLastNLoadModel::evalSpecificUOT(
 
   const auto& durations = this->levelVectorToLastNDurations_[lvlVec];
   const auto average = (static_cast<real>(std::accumulate(durations.begin(), 
-                                                          durations.end(), 0)) 
+                                                          durations.end(), 0ul)) 
                         / static_cast<real>(durations.size()));
   return std::chrono::microseconds{static_cast<long>(average)};
 }
-- 
2.43.0


From 3020ad1a1e22dfb96851fb9ff52b232be6cba163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:34 +0000
Subject: [PATCH 11/48] fix: size the constraint matrix arrays before indexing
 them in LP_OPT_INTERP

---
 src/fault_tolerance/LPOptimizationInterpolation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fault_tolerance/LPOptimizationInterpolation.cpp b/src/fault_tolerance/LPOptimizationInterpolation.cpp
index 077ed85..ee242f9 100644
--- a/src/fault_tolerance/LPOptimizationInterpolation.cpp
+++ b/src/fault_tolerance/LPOptimizationInterpolation.cpp
@@ -49,9 +49,9 @@ LP_OPT_INTERP::LP_OPT_INTERP(const LevelVectorList& _levels, const int& _dim, co
     size_downset = static_cast<int>(entire_downset.size());
     total_size = no_faults * size_downset;
 
-    constr_mat.reserve(1 + total_size);
-    row_index.reserve(1 + total_size);
-    col_index.reserve(1 + total_size);
+    constr_mat.resize(1 + total_size);
+    row_index.resize(1 + total_size);
+    col_index.resize(1 + total_size);
 
     i_lp_prob = glp_create_prob();
     assert(i_lp_prob != NULL);
-- 
2.43.0


From df9dfb38ee6a84e679e8b1e847dedd7c4267adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:25 +0000
Subject: [PATCH 12/48] fix: read the integer solution, not the relaxed one, of
 the coefficient optimization

---
 src/fault_tolerance/LPOptimizationInterpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fault_tolerance/LPOptimizationInterpolation.cpp b/src/fault_tolerance/LPOptimizationInterpolation.cpp
index ee242f9..9449c9d 100644
--- a/src/fault_tolerance/LPOptimizationInterpolation.cpp
+++ b/src/fault_tolerance/LPOptimizationInterpolation.cpp
@@ -215,7 +215,7 @@ CombigridDict LP_OPT_INTERP::get_results(LevelVectorList& recomp_faults) const {
 
   if (status == GLP_OPT) {
     for (int i = 0; i < size_downset; ++i) {
-      w_i = glp_get_col_prim(i_lp_prob, i + 1);
+      w_i = glp_mip_col_val(i_lp_prob, i + 1);
       w.push_back(w_i);
     }
 
-- 
2.43.0


From 379bea51a32347eb2998dc17c7551fa2c350fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:25 +0000
Subject: [PATCH 13/48] fix: scale the objective of the coefficient
 optimization above the solver's tolerances

---
 src/fault_tolerance/LPOptimizationInterpolation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fault_tolerance/LPOptimizationInterpolation.cpp b/src/fault_tolerance/LPOptimizationInterpolation.cpp
index 9449c9d..71a53e4 100644
--- a/src/fault_tolerance/LPOptimizationInterpolation.cpp
+++ b/src/fault_tolerance/LPOptimizationInterpolation.cpp
@@ -158,7 +158,8 @@ void LP_OPT_INTERP::init_opti_prob(const std::string& prob_name) {
   }
 
   for (int i = 0; i < size_downset; ++i) {
-    neg_norm = -l1_norm(downset_indices[i]);
+    // relative to the topmost diagonal, or else the coefficients are below the solver's tolerances
+    neg_norm = l_max - l1_norm(downset_indices[i]);
     coeff = pow(4.0, neg_norm);
 
     aux_var = set_aux_var_name("w", i + 1);
-- 
2.43.0


From cfa80a97b82b0ca381560f51d23c747ae5c2e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:56 +0000
Subject: [PATCH 14/48] fix: balance relative to the average process group
 duration, also for zero durations

---
 src/rescheduler/RebalancingTaskRescheduler.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/rescheduler/RebalancingTaskRescheduler.cpp b/src/rescheduler/RebalancingTaskRescheduler.cpp
index 6f9f3c8..0246bb1 100644
--- a/src/rescheduler/RebalancingTaskRescheduler.cpp
+++ b/src/rescheduler/RebalancingTaskRescheduler.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <numeric>
 #include <map>
+#include <set>
 
 namespace combigrid {
 
@@ -24,7 +25,14 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
   // variable containing the result
   std::vector<std::pair<LevelVector, int>> moveTasks{};
 
-  const auto numberOfProcessGroups = levelVectorToProcessGroupIndex.size();
+  std::set<int> processGroups{};
+  for (const auto& t : levelVectorToProcessGroupIndex) {
+    processGroups.insert(t.second);
+  }
+  if (processGroups.empty()) {
+    return moveTasks;
+  }
+  const auto numberOfProcessGroups = processGroups.size();
 
   // we need to mutate this map for multiple iterations
   auto levelVectorToProcessGroupIndexMutCopy = levelVectorToProcessGroupIndex;
@@ -66,7 +74,8 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
       slowestGroup = *minmaxGroup.second;
     }
 
-    if (slowestGroup.second / averageProcessGroupDuration < this->min_inbalance_) {
+    if (static_cast<double>(slowestGroup.second) <
+        this->min_inbalance_ * static_cast<double>(averageProcessGroupDuration)) {
       return moveTasks;
     }
 
-- 
2.43.0


From 3de291a5e929a2153a6aa2452248d826fcef9867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:00 +0000
Subject: [PATCH 15/48] fix: report the maximum coefficient of subspaces with
 only negative coefficients

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index bbb52db..9a4bd3d 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -732,7 +732,7 @@ template <typename FG_ELEMENT>
 void DistributedSparseGridUniform<FG_ELEMENT>::accumulateMinMaxCoefficients() {
   if (maxCoefficientPerSubspace_.empty()) {
     maxCoefficientPerSubspace_.resize(this->getNumSubspaces(),
-                                      std::numeric_limits<combigrid::real>::min());
+                                      std::numeric_limits<combigrid::real>::lowest());
     minCoefficientPerSubspace_.resize(this->getNumSubspaces(),
                                       std::numeric_limits<combigrid::real>::max());
   }
-- 
2.43.0


From 87056923557cb8b85f9e706f2d9385424f7de7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:00 +0000
Subject: [PATCH 16/48] fix: clear exactly the Kahan summation buffer

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index 9a4bd3d..d091182 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -84,7 +84,7 @@ class DistributedSparseGridDataContainer {
     size_t numDataPoints = dsgu_.getAccumulatedDataSize(subspacesWithData_);
     kahanData_.resize(numDataPoints, 0.);
     kahanDataBegin_.resize(dsgu_.getSubspaceDataSizes().size());
-    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT*));
+    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT));
     std::memset(kahanDataBegin_.data(), 0, kahanDataBegin_.size() * sizeof(FG_ELEMENT*));
 
     // update pointers for begin of subspacen in kahan buffer
-- 
2.43.0


From 050279ebf0537085d0ad0704654c974f79d604a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 17/48] fix: let all processes take part in every collective
 read of a file reduction

---
 src/io/MPIInputOutput.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index bab216a..e5dd39f 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -236,6 +236,15 @@ int readValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std::strin
   return file.readValuesFromFileAtPosition(valuesStart, numValues, position);
 }
 
+// number of collective reads needed if every process reads at most numElementsToBuffer at a time
+inline MPI_Offset getNumCollectiveReads(MPI_Offset numValues, int numElementsToBuffer,
+                                        combigrid::CommunicatorType comm) {
+  MPI_Offset numReads =
+      numValues > 0 ? (numValues + numElementsToBuffer - 1) / numElementsToBuffer : 0;
+  MPI_Allreduce(MPI_IN_PLACE, &numReads, 1, MPI_OFFSET, MPI_MAX, comm);
+  return numReads;
+}
+
 template <typename T, typename ReduceFunctionType>
 int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std::string& fileName,
                                 combigrid::CommunicatorType comm, int numElementsToBuffer,
@@ -248,7 +257,9 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
   int readcount = 0;
   std::vector<T> buffer(numElementsToBuffer);
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  // reading is collective: processes with fewer values take part in all reads, too
+  const auto numReads = getNumCollectiveReads(numValues, numElementsToBuffer, comm);
+  for (MPI_Offset read = 0; read < numReads; ++read) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -256,6 +267,7 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
     }
     auto readcountIncrement =
         file.readValuesFromFileAtPosition(buffer.data(), numElementsToBuffer, position);
+    if (numElementsToBuffer == 0) continue;
     assert(readcountIncrement > 0);
     // reduce with present sparse grid data
     std::transform(buffer.cbegin(), buffer.cend(), writePointer, writePointer, reduceFunction);
@@ -294,7 +306,9 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
   std::vector<std::vector<T>> buffers(fileNames.size(), std::vector<T>(numElementsToBuffer));
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  // reading is collective: processes with fewer values take part in all reads, too
+  const auto numReads = getNumCollectiveReads(numValues, numElementsToBuffer, comm);
+  for (MPI_Offset read = 0; read < numReads; ++read) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -306,8 +320,9 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
     for (size_t i = 0; i < buffers.size(); ++i) {
       readcountIncrement =
           files[i].readValuesFromFileAtPosition(buffers[i].data(), numElementsToBuffer, position);
-      assert(readcountIncrement > 0);
+      assert(readcountIncrement > 0 || numElementsToBuffer == 0);
     }
+    if (numElementsToBuffer == 0) continue;
     // reduce with present sparse grid data
     // todo is there a variadic way of doing this?
     transformN(reduceFunction, writePointer, buffers[0].cbegin(), buffers[0].cend(), writePointer,
-- 
2.43.0


From b8faffe54e57de2d7c4edab3e0e54d68f3c4fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 18/48] fix: read back compressed data of processes without
 sparse grid points

---
 src/io/MPICompression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 0c0fdf3..7adb651 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -193,6 +193,7 @@ size_t decompressLZ4FrameToBuffer(const std::vector<char>& compressedString,
   auto decompressor = FrameDecompressor(compressedString, decompressValuesStart);
   size_t decompressedSize = 0;
   int numRounds = 0;
+  const int expectedNumRounds = numValues > 0 ? 2 : 1;
   do {
     decompressedSize = decompressor.decompressNextBlocks(numValues);
     numValues -= decompressedSize;
@@ -200,7 +201,7 @@ size_t decompressLZ4FrameToBuffer(const std::vector<char>& compressedString,
     ++numRounds;
   } while (decompressedSize > 0);
   assert(numValues == 0);
-  if (numRounds != 2) {
+  if (numRounds != expectedNumRounds) {
     throw std::runtime_error("LZ4 decompression failed: " + std::to_string(numRounds) + " rounds");
   }
 #else
-- 
2.43.0


From 3f1e8bbfbeed5569132386946fb657e5055d22fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:39 +0000
Subject: [PATCH 19/48] fix: do not decompress behind the end of the buffer if
 it starts with a remainder

---
 src/io/MPICompression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 7adb651..799c568 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -72,7 +72,8 @@ class VectorStream : public std::basic_streambuf<char, std::char_traits<char>> {
   void reset(size_t afterNumChars = 0) {
     setg(vec_.data(), vec_.data() + afterNumChars, vec_.data() + vec_.size());
   }
-  size_t size() const { return vec_.size(); }
+  // number of chars that fit behind front()
+  size_t size() const { return static_cast<size_t>(egptr() - gptr()); }
 
   char* front() { return gptr(); }
 
-- 
2.43.0


From e75a8a2c9edb41ff19bbb99e4a22baa88a53855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:39 +0000
Subject: [PATCH 20/48] fix: report errors of LZ4 decompression instead of
 looping forever

---
 src/io/MPICompression.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 799c568..29589bc 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -109,12 +109,12 @@ class [[nodiscard]] StreamingFrameDecompressor {
   size_t decompressNextBlock() {
     size_t decompressedSize = sink_.size();
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
+    auto hintNextBufferSize =
         LZ4F_decompress(dctx_, sink_.front(), &decompressedSize,
                         compressedString_.data() + readCompressedByNow_, &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
     }
     decompressedByNow_ += decompressedSize;
     readCompressedByNow_ += sourceSize;
@@ -163,12 +163,12 @@ class [[nodiscard]] FrameDecompressor {
   size_t decompressNextBlocks(size_t numValues) {
     size_t decompressedSize = numValues * sizeof(T);
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
+    auto hintNextBufferSize =
         LZ4F_decompress(dctx_, decompressValuesStart_, &decompressedSize, compressedString_.data(),
                         &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
     }
     decompressedByNow_ += decompressedSize;
     decompressValuesStart_ += decompressedSize;
-- 
2.43.0


From 7f7d475f1adf4ae428d4e427cd634d24a52ccb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:03 +0000
Subject: [PATCH 21/48] fix: remove exactly the sparse grid file part that was
 read

---
 src/manager/SparseGridWorker.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index 5ea2401..897930e 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -1070,13 +1070,8 @@ void SparseGridWorker<CombiDataType>::removeReadingFiles(
       // remove sparse grid file(s)
       if (!keepSparseGridFiles) {
         std::filesystem::remove(filenamePrefixesToRead[i] + "_" + std::to_string(0));
-        for (const auto& entry : std::filesystem::directory_iterator(".")) {
-          if (entry.path().string().find(filenamePrefixesToRead[i] + "_" + std::to_string(0) +
-                                         ".part" + std::to_string(filePart)) != std::string::npos) {
-            assert(entry.is_regular_file());
-            std::filesystem::remove(entry.path());
-          }
-        }
+        std::filesystem::remove(filenamePrefixesToRead[i] + "_" + std::to_string(0) + ".part" +
+                                std::to_string(filePart));
       }
     }
   }
-- 
2.43.0


From 4a7f6944b2e60af1545b68199be047f9b8049c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:03 +0000
Subject: [PATCH 22/48] fix: do not wait for an uninitialized request if
 nothing is broadcast

---
 src/manager/ProcessGroupWorker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 7195387..38043f4 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -1012,7 +1012,7 @@ void ProcessGroupWorker<CombiDataType>::waitForThirdLevelCombiResult(bool fromOu
   }
 
   Stats::startEvent("wait for bcasts");
-  MPI_Request request;
+  MPI_Request request = MPI_REQUEST_NULL;
   this->getSparseGridWorker().startSingleBroadcastDSGs(combiParameters_.getCombinationVariant(),
                                                        broadcastSender, &request);
   [[maybe_unused]] auto returnedValue = MPI_Wait(&request, MPI_STATUS_IGNORE);
-- 
2.43.0


From cbe7effc917b34362135937f106dceb345e5450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:40 +0000
Subject: [PATCH 23/48] fix: keep the local communicator that grids use if its
 topology does not change

---
 src/manager/ProcessGroupWorker.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 38043f4..151772c 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -699,12 +699,27 @@ void ProcessGroupWorker<CombiDataType>::setCombiParameters(CombiParameters&& com
     // don't let MPI assign arbitrary ranks
     int reorder = false;
 
-    // Create a communicator given the topology.
-    MPI_Comm new_communicator;
-    MPI_Cart_create(theMPISystem()->getLocalComm(), combiParameters_.getDim(), dims.data(),
-                    periods.data(), reorder, &new_communicator);
+    // keep the current communicator if it already has this topology, the tasks' grids may use it
+    int topology = MPI_UNDEFINED;
+    MPI_Topo_test(theMPISystem()->getLocalComm(), &topology);
+    bool sameTopology = (topology == MPI_CART);
+    if (sameTopology) {
+      int ndims = 0;
+      MPI_Cartdim_get(theMPISystem()->getLocalComm(), &ndims);
+      std::vector<int> oldDims(ndims), oldPeriods(ndims), oldCoords(ndims);
+      MPI_Cart_get(theMPISystem()->getLocalComm(), ndims, oldDims.data(), oldPeriods.data(),
+                   oldCoords.data());
+      sameTopology = (oldDims == dims && oldPeriods == periods);
+    }
+
+    if (!sameTopology) {
+      // Create a communicator given the topology.
+      MPI_Comm new_communicator;
+      MPI_Cart_create(theMPISystem()->getLocalComm(), combiParameters_.getDim(), dims.data(),
+                      periods.data(), reorder, &new_communicator);
 
-    theMPISystem()->storeLocalComm(new_communicator);
+      theMPISystem()->storeLocalComm(new_communicator);
+    }
   }
 }
 
-- 
2.43.0


From 8393ea9e47009e098190d8ec95d00654c5e7439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:40 +0000
Subject: [PATCH 24/48] fix: receive the status of the process group after
 diagnostics

---
 src/manager/ProcessGroupManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index ee6a6c5..3743f53 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -632,6 +632,7 @@ void ProcessGroupManager<CombiDataType>::doDiagnostics(size_t taskID) {
       MPI_Send(&taskID, 1,
                abstraction::getMPIDatatype(abstraction::getabstractionDataType<decltype(taskID)>()),
                this->pgroupRootID_, 0, theMPISystem()->getGlobalComm());
+      setProcessGroupBusyAndReceive();
       return;
     }
   }
-- 
2.43.0


From e10ba28b5fbe41e81e0d9653569b91dcf2d77f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:33 +0000
Subject: [PATCH 25/48] fix: let all process groups take part in writing the
 min/max coefficients

---
 src/manager/ProcessManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index e358af8..06aeff4 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -576,7 +576,10 @@ void ProcessManager<CombiDataType>::monteCarloThirdLevel(
 
 template <typename CombiDataType>
 void ProcessManager<CombiDataType>::writeSparseGridMinMaxCoefficients(const std::string& filename) {
-  pgroups_.back()->writeSparseGridMinMaxCoefficients(filename);
+  // the coefficients are reduced across all process groups
+  for (auto& pg : pgroups_) {
+    pg->writeSparseGridMinMaxCoefficients(filename);
+  }
 }
 
 template <typename CombiDataType>
-- 
2.43.0


From ab3b31e041d73c60e71d55a7ff066874ac999f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:50 +0000
Subject: [PATCH 26/48] fix: receive only one process group status at a time

---
 src/manager/ProcessGroupManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index 3743f53..ba15005 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -66,6 +66,9 @@ void ProcessGroupManager<CombiDataType>::sendSignalToProcessGroup(SignalType sig
 
 template <typename CombiDataType>
 inline void ProcessGroupManager<CombiDataType>::setProcessGroupBusyAndReceive() {
+  // complete receiving the status of the previous signal before expecting the next one
+  waitStatus();
+
   // set status
   status_ = PROCESS_GROUP_BUSY;
 
-- 
2.43.0


From 133d540c5b09db7271a03cdef94c102cf8621f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:50 +0000
Subject: [PATCH 27/48] fix: complete the last status receive in
 ProcessManager::exit

---
 src/manager/ProcessManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index 06aeff4..1397238 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -117,6 +117,9 @@ void ProcessManager<CombiDataType>::exit() {
     [[maybe_unused]] bool success = pgroups_[i]->exit();
     assert(success);
   }
+
+  // receive the last status, the memory for it may be gone afterwards
+  waitAllFinished();
 }
 
 template <typename CombiDataType>
-- 
2.43.0


From a264fb83681a5cc059a17d61c4ef1584c3a4800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:11 +0000
Subject: [PATCH 28/48] fix: combine with the updated coefficients after
 updateCombiParameters

---
 src/manager/ProcessGroupWorker.cpp | 8 ++++++++
 src/task/Task.hpp                  | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 151772c..3455e2b 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -736,6 +736,14 @@ void ProcessGroupWorker<CombiDataType>::updateCombiParameters() {
                            theMPISystem()->getLocalComm());
 
   this->setCombiParameters(std::move(combiParametersReceived));
+
+  // use the (possibly changed) combination coefficients in the next combination
+  const auto& idsToLevels = combiParameters_.getLevelsDict();
+  for (const auto& task : this->getTaskWorker().getTasks()) {
+    if (idsToLevels.find(task->getID()) != idsToLevels.end()) {
+      task->setCoefficient(combiParameters_.getCoeff(task->getID()));
+    }
+  }
 }
 
 template <typename CombiDataType>
diff --git a/src/task/Task.hpp b/src/task/Task.hpp
index f375682..eeb7c03 100644
--- a/src/task/Task.hpp
+++ b/src/task/Task.hpp
@@ -211,6 +211,13 @@ class Task {
    */
   inline real getCoefficient() const { return coeff_; }
 
+  /**
+   * @brief set the combination coefficient of the task
+   *
+   * the coefficients can change e.g. due to faults
+   */
+  inline void setCoefficient(real coeff) { coeff_ = coeff; }
+
   /**
    * @brief explicitly set a new ID for the task;
    *
-- 
2.43.0


From f706d16e4743b0c299e72e481a44c8cbf63c1c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:54 +0000
Subject: [PATCH 29/48] fix: recompute optimum coefficients for arbitrary task
 IDs

---
 src/manager/ProcessManager.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/manager/ProcessManager.hpp b/src/manager/ProcessManager.hpp
index a83fa3a..7d716a3 100644
--- a/src/manager/ProcessManager.hpp
+++ b/src/manager/ProcessManager.hpp
@@ -752,13 +752,12 @@ inline void ProcessManager<CombiDataType>::recomputeOptimumCoefficients(
     std::vector<real> newCoeffs;
     std::vector<size_t> newTaskIDs;
 
-    int numLevels = int(params_.getNumLevels());
-    for (int i = 0; i < numLevels; ++i) {
-      LevelVector lvl = params_.getLevel(i);
+    for (const auto& idAndLevel : params_.getLevelsDict()) {
+      const LevelVector& lvl = idAndLevel.second;
 
       newLevels.push_back(lvl);
       newCoeffs.push_back(new_dict[lvl]);
-      newTaskIDs.push_back(i);
+      newTaskIDs.push_back(idAndLevel.first);
     }
     // check if sum of coefficients is 1
     double sum = 0.0;
-- 
2.43.0


From 5b7eb96294478504bd4eaaa91f3a2396b2e5056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:45 +0000
Subject: [PATCH 30/48] fix: let process groups without tasks take part in the
 outgroup reduction

---
 src/sparsegrid/AnyDistributedSparseGrid.cpp | 22 ++-------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/sparsegrid/AnyDistributedSparseGrid.cpp b/src/sparsegrid/AnyDistributedSparseGrid.cpp
index e6f31de..7d88773 100644
--- a/src/sparsegrid/AnyDistributedSparseGrid.cpp
+++ b/src/sparsegrid/AnyDistributedSparseGrid.cpp
@@ -157,35 +157,19 @@ void AnyDistributedSparseGrid::setOutgroupCommunicator(CommunicatorType comm, Ra
   // free previous communicator, if any
   clearSubspaceCommunicators();
 
-  RankType maxNumRanks = std::numeric_limits<UIntForGroupReductionType>::digits;
-
   std::vector<UIntForGroupReductionType> subspaceVote =
       getSubspaceVote(comm, rankInComm, subspacesDataSizes_);
 
   // use this data to get the subspaces by the reduced values
-  UIntForGroupReductionType manyGroups = 0;
   std::vector<SubspaceIndexType> subspacesForMany;
   for (SubspaceIndexType i = 0; i < this->getNumSubspaces(); ++i) {
     // only add if the vote has > 1 bit set (i.e. more than one rank has data in this subspace)
     if (subspaceVote[i] != 0 && (subspaceVote[i] & (subspaceVote[i] - 1)) != 0) {
       subspacesForMany.push_back(i);
-      manyGroups |= subspaceVote[i];
-    }
-  }
-
-  // use this data to set subspacesByComm_
-  std::vector<RankType> ranks;
-  // find all ranks that have voted
-  for (RankType r = 0; r < maxNumRanks; ++r) {
-    if (manyGroups & (static_cast<UIntForGroupReductionType>(1) << r)) {
-      ranks.push_back(r);
     }
   }
 
-  // assert that the given comm has the right size and all ranks are contributing
-  int commSize;
-  MPI_Comm_size(comm, &commSize);
-  assert(commSize == static_cast<int>(ranks.size()) || subspacesForMany.empty());
+  // all ranks in comm take part, also those without any data (process groups without tasks)
   MPI_Comm subspaceComm = comm;
   myOwnSubspaceCommunicators_ = false;  // now we also need to reduce the data sizes (like for
                                         // sparse grid reduce, but only for the
@@ -203,10 +187,8 @@ void AnyDistributedSparseGrid::setOutgroupCommunicator(CommunicatorType comm, Ra
       this->subspacesDataSizes_[subspace] = subspaceDataSizesAlmostCopy[subspace];
     }
   }
-  if (std::find(ranks.begin(), ranks.end(), rankInComm) != ranks.end()) {
+  if (!subspacesForMany.empty()) {
     subspacesByComm_.push_back(std::make_pair(subspaceComm, std::move(subspacesForMany)));
-  } else {
-    assert(subspacesForMany.empty());
   }
 #ifndef NDEBUG
   // max-reduce the number of communicators created on each rank
-- 
2.43.0


From ef714c07d94a7fb84be2d3cee2ef14ab94bee034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:23 +0000
Subject: [PATCH 31/48] fix: escape names and attribute values in the
 statistics files

---
 src/utils/Stats.hpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/utils/Stats.hpp b/src/utils/Stats.hpp
index f586f99..20e68e3 100644
--- a/src/utils/Stats.hpp
+++ b/src/utils/Stats.hpp
@@ -93,6 +93,11 @@ class Stats {
                            CommunicatorType comm = theMPISystem()->getWorldComm());
 
  private:
+  /**
+   * escape the characters that may not appear verbatim in a json string
+   */
+  static std::string escapeForJSON(const std::string& text);
+
   static bool initialized_;
   static bool finalized_;
   static time_point init_time_;
@@ -102,6 +107,24 @@ class Stats {
   static std::unordered_map<std::string, std::string> attributes_;
 };
 
+inline std::string Stats::escapeForJSON(const std::string& text) {
+  static const char* hexDigits = "0123456789abcdef";
+  std::string escaped;
+  for (const char c : text) {
+    if (c == '"' || c == '\\') {
+      escaped += '\\';
+      escaped += c;
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      escaped += "\\u00";
+      escaped += hexDigits[static_cast<unsigned char>(c) >> 4];
+      escaped += hexDigits[static_cast<unsigned char>(c) & 0xf];
+    } else {
+      escaped += c;
+    }
+  }
+  return escaped;
+}
+
 #ifdef TIMING
 inline void Stats::initialize() {
   assert(!initialized_);
@@ -156,7 +179,7 @@ inline void Stats::write(const std::string& path, CommunicatorType comm) {
     buffer << "\"attributes\":{" << std::endl;
     std::size_t attributes_count = 0;
     for (auto&& it = attributes_.begin(); it != attributes_.end(); ++it) {
-      buffer << "\"" << it->first << "\":\"" << it->second << "\"";
+      buffer << "\"" << escapeForJSON(it->first) << "\":\"" << escapeForJSON(it->second) << "\"";
       if (++attributes_count != attributes_.size()) {
         buffer << "," << std::endl;
       } else {
@@ -168,7 +191,7 @@ inline void Stats::write(const std::string& path, CommunicatorType comm) {
     buffer << "\"events\":{" << std::endl;
     std::size_t event_count = 0;
     for (auto&& t = event_.begin(); t != event_.end(); ++t) {
-      buffer << "\"" << t->first << "\""
+      buffer << "\"" << escapeForJSON(t->first) << "\""
              << ":[" << std::endl;
 
       std::size_t element_count = 0;
@@ -222,7 +245,7 @@ inline void Stats::writePartial(const std::string& pathSuffix, CommunicatorType
     std::size_t attributes_count = 0;
     // write all attributes
     for (auto&& it = attributes_.begin(); it != attributes_.end(); ++it) {
-      buffer << "\"" << it->first << "\":\"" << it->second << "\"";
+      buffer << "\"" << escapeForJSON(it->first) << "\":\"" << escapeForJSON(it->second) << "\"";
       if (++attributes_count != attributes_.size()) {
         buffer << "," << std::endl;
       } else {
@@ -239,7 +262,7 @@ inline void Stats::writePartial(const std::string& pathSuffix, CommunicatorType
       if (!anyEventFirstTime) {
         eventBuffer << "," << std::endl;
       }
-      eventBuffer << "\"" << t->first << "\""
+      eventBuffer << "\"" << escapeForJSON(t->first) << "\""
                   << ":[" << std::endl;
 
       bool thisEventFirstTime = true;
-- 
2.43.0


From 2ab33f458cf2ee77a9d3e8336c05bccf198775ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:23 +0000
Subject: [PATCH 32/48] fix: transfer the level-to-ID map and the combination
 dictionary with the parameters

---
 src/manager/CombiParameters.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/manager/CombiParameters.hpp b/src/manager/CombiParameters.hpp
index cd2c5e6..45e441c 100644
--- a/src/manager/CombiParameters.hpp
+++ b/src/manager/CombiParameters.hpp
@@ -552,6 +552,8 @@ void CombiParameters::serialize(Archive& ar, const unsigned int version) {
   ar & boundary_;
   ar & levels_;
   ar & coeffs_;
+  ar & levelsToIDs_;
+  ar & combiDictionary_;
   ar & hierarchizationDims_;
   ar & hierarchicalBases_;
   ar & procs_;
-- 
2.43.0


From 11402aa7d40f2026be07b6d0a2784d3ba9f2c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:13 +0000
Subject: [PATCH 33/48] fix: receive binary data correctly if an element
 arrives in more than two pieces

---
 src/third_level/NetworkUtils.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 0794a37..2eb8035 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -13,6 +13,7 @@
 #include <csignal>
 #include <errno.h>
 #include <unistd.h>
+#include <algorithm>
 #include <assert.h>
 #include <arpa/inet.h>
 #include <iostream>
@@ -224,6 +225,8 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
     //                              0                  recvd-1
 
     tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    // the received data may end before the element is complete
+    tail_k = std::min(tail_k, recvd);
     head_k = (recvd - tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -258,7 +261,7 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
       remaining.push_back(recvBuff[size_t(i)]);
 
     // overwrite old head
-    head_k1 = head_k;
+    head_k1 = static_cast<ssize_t>(remaining.size());
 
     totalRecvd += (size_t)recvd;
   }
@@ -335,6 +338,8 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
     //                              0                  recvd-1
 
     tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    // the received data may end before the element is complete
+    tail_k = std::min(tail_k, recvd);
     head_k = (recvd-tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -377,7 +382,7 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
       remaining.push_back(recvBuff[size_t(i)]);
 
     // overwrite old head
-    head_k1 = head_k;
+    head_k1 = static_cast<ssize_t>(remaining.size());
 
     totalRecvd += (size_t)recvd;
   }
-- 
2.43.0


From de7f16ca37d17cc6ead0f6c189694b38d2b813d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:13 +0000
Subject: [PATCH 34/48] fix: reverse all bytes of a value of other byte order

---
 src/third_level/NetworkUtils.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 2eb8035..ae89d75 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -15,6 +15,7 @@
 #include <unistd.h>
 #include <algorithm>
 #include <assert.h>
+#include <complex>
 #include <arpa/inet.h>
 #include <iostream>
 #include <vector>
@@ -164,10 +165,17 @@ class NetworkUtils {
 
       // reverse bytes
       for (size_t j = 0; j < sizeof(T); j++)
-          rawRet[j] = rawValue[sizeof(T)-j];
+          rawRet[j] = rawValue[sizeof(T)-1-j];
 
       return retValue;
     }
+
+    // the parts of a complex number are swapped each on their own
+    template<typename T>
+    inline static std::complex<T> reverseEndianness(const std::complex<T>& value)
+    {
+      return std::complex<T>(reverseEndianness(value.real()), reverseEndianness(value.imag()));
+    }
 };
 
 /* Receives buffSize elements of type FG_ELEMENT and corrects the endianness of
-- 
2.43.0


From 402ea6d100bc23de543358bc12b0038f342f09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:13 +0000
Subject: [PATCH 35/48] fix: receive message lengths that do not fit an int

---
 src/third_level/NetworkUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 1c744fc..84c6802 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -191,7 +191,7 @@ bool ClientSocket::recvLength(size_t & length, int flags) const {
     default:
       lenstr.pop_back();
       assert(NetworkUtils::isInteger(lenstr) && "Received length is not a number");
-      length = (size_t) std::stoi(lenstr);
+      length = static_cast<size_t>(std::stoull(lenstr));
       assert(length > 0);
       return true;
   }
-- 
2.43.0


From 569d28574b70a4c87266444f591495ba5eb78c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:13 +0000
Subject: [PATCH 36/48] fix: do not receive data behind the end into the file

---
 src/third_level/NetworkUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 84c6802..a0bae05 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -121,7 +121,7 @@ bool ClientSocket::recvallBinaryToFile(const std::string& filename, size_t len,
   size_t total = 0;
   std::unique_ptr<char[]> buff(new char[chunksize]);
   while (total < len) {
-    recvd = recv(sockfd_, buff.get(), chunksize, 0);
+    recvd = recv(sockfd_, buff.get(), std::min(len - total, chunksize), 0);
     if (recvd <= 0)
       break;
     total += static_cast<size_t>(recvd);
-- 
2.43.0


From 5f29b746325bc23f101ef5739d7eb842ec0fba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:13 +0000
Subject: [PATCH 37/48] fix: report a closed connection when sending instead of
 ending by a signal

---
 src/third_level/NetworkUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index a0bae05..f2c8b55 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -55,7 +55,7 @@ bool ClientSocket::sendall(const char* buff, size_t len) const {
   ssize_t sent = -1;
   size_t total = 0;
   while (total < len) {
-    sent = send(sockfd_, &buff[total], len - total, 0);
+    sent = send(sockfd_, &buff[total], len - total, MSG_NOSIGNAL);
     if (sent <= 0)
       break;
     total += static_cast<size_t>(sent);
-- 
2.43.0


From 63c2396b29073658807572aae958792f52fb8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:13 +0000
Subject: [PATCH 38/48] fix: let the third level manager write statistics if
 there was no combination

---
 third_level_manager/thirdLevelManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_level_manager/thirdLevelManager.cpp b/third_level_manager/thirdLevelManager.cpp
index 88562cf..d1cecd6 100644
--- a/third_level_manager/thirdLevelManager.cpp
+++ b/third_level_manager/thirdLevelManager.cpp
@@ -297,7 +297,8 @@ void ThirdLevelManager::writeStatistics(const std::string& filename)
   size_t walltime = stats_.getWallTime();
   size_t numCombinations = stats_.getNumCombinations();
   size_t totalBytesTransferredInCombination = stats_.getTotalBytesTransferredInCombination();
-  size_t numBytesTransferredPerCombination = totalBytesTransferredInCombination / numCombinations;
+  size_t numBytesTransferredPerCombination =
+      numCombinations > 0 ? totalBytesTransferredInCombination / numCombinations : 0;
   size_t totalBytesTransferredInSizeExchange = stats_.getTotalBytesTransferredInSizeExchange();
   if (filename != "")
   {
-- 
2.43.0


From 25c08512adbc7785a9d31abda61507108b9a4df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:33 +0000
Subject: [PATCH 39/48] fix: report a lost connection to the third level
 manager instead of going on without data

---
 src/third_level/ThirdLevelUtils.cpp | 14 +++++++++++---
 src/third_level/ThirdLevelUtils.hpp | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/third_level/ThirdLevelUtils.cpp b/src/third_level/ThirdLevelUtils.cpp
index ff696b3..8cdbf48 100644
--- a/src/third_level/ThirdLevelUtils.cpp
+++ b/src/third_level/ThirdLevelUtils.cpp
@@ -11,7 +11,11 @@ ThirdLevelUtils::ThirdLevelUtils(const std::string& host, int port)
 
 ThirdLevelUtils::~ThirdLevelUtils(){
   if (isConnected_) {
-    signalFinalize();
+    try {
+      signalFinalize();
+    } catch (const std::runtime_error& e) {
+      std::cerr << e.what() << std::endl;
+    }
     isConnected_ = false;
   }
 }
@@ -81,12 +85,16 @@ void ThirdLevelUtils::signalFinalize() const
 
 void ThirdLevelUtils::sendMessage(const std::string& message) const
 {
-  connection_->sendallPrefixed(message);
+  if (!connection_->sendallPrefixed(message)) {
+    throw std::runtime_error("Sending message to third level manager failed");
+  }
 }
 
 void ThirdLevelUtils::receiveMessage(std::string& message) const
 {
-  connection_->recvallPrefixed(message);
+  if (!connection_->recvallPrefixed(message)) {
+    throw std::runtime_error("Receiving message from third level manager failed");
+  }
 }
 
 void ThirdLevelUtils::signalizeSendData() const
diff --git a/src/third_level/ThirdLevelUtils.hpp b/src/third_level/ThirdLevelUtils.hpp
index b5212e0..12cc5e9 100644
--- a/src/third_level/ThirdLevelUtils.hpp
+++ b/src/third_level/ThirdLevelUtils.hpp
@@ -86,7 +86,9 @@ namespace combigrid {
     signalizeSendData();
     size_t rawSize = size * sizeof(FG_ELEMENT) + 1; // + 1 due to endianness
     sendSize(rawSize);
-    connection_->sendallBinary(data, size);
+    if (!connection_->sendallBinary(data, size)) {
+      throw std::runtime_error("sending data to third level manager failed");
+    }
   }
 
   template <typename FG_ELEMENT>
@@ -96,8 +98,10 @@ namespace combigrid {
     size_t rawSize = receiveSize();
     [[maybe_unused]] size_t recvSize = (rawSize - 1) / sizeof(FG_ELEMENT); // - 1 due to endianness
     assert(recvSize == size && "Size mismatch receiving data size does not match expected");
-    [[maybe_unused]] bool success = connection_->recvallBinaryAndCorrectInPlace(data, size);
-    assert(success && "receiving dsgu data failed");
+    bool success = connection_->recvallBinaryAndCorrectInPlace(data, size);
+    if (!success) {
+      throw std::runtime_error("receiving data from third level manager failed");
+    }
   }
 
 
@@ -108,9 +112,11 @@ namespace combigrid {
     size_t rawSize = receiveSize();
     [[maybe_unused]] size_t recvSize = (rawSize - 1) / sizeof(FG_ELEMENT); // - 1 due to endianness
     assert(recvSize == size && "Size mismatch cannot add vectors of different size");
-    [[maybe_unused]] bool success = connection_->recvallBinaryAndReduceInPlace<FG_ELEMENT>(data, size,
+    bool success = connection_->recvallBinaryAndReduceInPlace<FG_ELEMENT>(data, size,
         [](const FG_ELEMENT& lhs, const FG_ELEMENT& rhs) -> FG_ELEMENT {return lhs + rhs;});
-    assert(success && "receiving dsgu data failed");
+    if (!success) {
+      throw std::runtime_error("receiving data from third level manager failed");
+    }
   }
 }
 #endif
-- 
2.43.0


From 490d5ebc93551ebd1c0e80f56293f9ae1147d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:40 +0000
Subject: [PATCH 40/48] fix: close the file descriptor of a socket only once

---
 src/third_level/NetworkUtils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index f2c8b55..99dca1f 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -11,7 +11,7 @@ ClientSocket::ClientSocket() : Socket() {
 }
 
 ClientSocket::~ClientSocket() {
-  close(sockfd_);
+  // closed by Socket
 }
 
 bool ClientSocket::init() {
@@ -283,7 +283,8 @@ ServerSocket::ServerSocket(const unsigned short port) : Socket(), port_(port) {
 }
 
 ServerSocket::~ServerSocket() {
-  close(sockfd_);
+  if (sockfd_ >= 0) close(sockfd_);
+  sockfd_ = -1;
   sleep(5);
 }
 
@@ -359,7 +360,7 @@ Socket::Socket() : sockfd_(-1), initialized_(false) {
 }
 
 Socket::~Socket(){
-  close(sockfd_);
+  if (sockfd_ >= 0) close(sockfd_);
 }
 
 int Socket::getFileDescriptor() const {
-- 
2.43.0


From 04016d0e7bf4ee10c8149ca0020991c0e2b664e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 41/48] fix: do not let input and output of the LZ4 header
 compression overlap

---
 src/io/MPICompression.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 29589bc..0a776c4 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -5,7 +5,9 @@
 #include <mpi.h>
 
 #include <iostream>
+#include <numeric>
 #include <string>
+#include <vector>
 
 #ifdef DISCOTEC_USE_LZ4
 #include "lz4.h"
@@ -228,12 +230,14 @@ inline size_t getSizeOfHeaderFrame(int commSize, size_t& headerFrameBound,
   lz4PreferencesHeader.frameInfo.contentSize = locationInfoSize;
   lz4PreferencesHeader.compressionLevel = -65535;  // no compression?
   headerFrameBound = LZ4F_compressFrameBound(locationInfoSize, &lz4PreferencesHeader);
-  // initialize w/ random values
+  // as incompressible as the actual offsets, and not in the output buffer: LZ4 needs them apart
+  std::vector<MPI_Offset> dummyLocationInfo(commSize);
+  std::iota(dummyLocationInfo.begin(), dummyLocationInfo.end(), 1);
   std::vector<char> compressedDummyString(headerFrameBound);
 
   size_t compressedHeaderSize =  // will be overwritten later
       LZ4F_compressFrame(compressedDummyString.data(), headerFrameBound,
-                         compressedDummyString.data(), locationInfoSize, &lz4PreferencesHeader);
+                         dummyLocationInfo.data(), locationInfoSize, &lz4PreferencesHeader);
   if (LZ4F_isError(compressedHeaderSize)) {
     throw std::runtime_error("LZ4 dummy compression failed: " +
                              std::string(LZ4F_getErrorName(compressedHeaderSize)));
-- 
2.43.0


From 7df59f4e798170eb2b4297c6555b2da42b545188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:10 +0000
Subject: [PATCH 42/48] fix: avoid a shift by a negative number in the hat
 dehierarchization

---
 src/hierarchization/DistributedHierarchization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hierarchization/DistributedHierarchization.hpp b/src/hierarchization/DistributedHierarchization.hpp
index 0234385..b14275b 100644
--- a/src/hierarchization/DistributedHierarchization.hpp
+++ b/src/hierarchization/DistributedHierarchization.hpp
@@ -795,8 +795,8 @@ inline void dehierarchize_hat_boundary_kernel(FG_ELEMENT* data, LevelType lmax,
       offset += stepsize;
     }
     steps = steps << 1;
-    offset = (1 << (lmaxi - (ll + 1)));  // boundary case
     parentOffset = parentOffset >> 1;
+    offset = parentOffset;  // boundary case
     stepsize = stepsize >> 1;
   }
   return;
-- 
2.43.0


From b0d016da8f0c31c61b8a25c5d7bf48f9e95d52d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 43/48] fix: avoid shifts by negative numbers in the full grid
 hierarchization

---
 src/hierarchization/Hierarchization.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hierarchization/Hierarchization.hpp b/src/hierarchization/Hierarchization.hpp
index da32c19..b62e697 100644
--- a/src/hierarchization/Hierarchization.hpp
+++ b/src/hierarchization/Hierarchization.hpp
@@ -343,9 +343,9 @@ inline void dehierarchize1DUnoptimizedNoBoundary(combigrid::FullGrid<FG_ELEMENT>
   //      start = start +stride; // nun mit offset = 1;start war vorher der erste gitterpunkt
   //      (welcher randpunkt ist) und ist nun der erste zu hierarchisierende Gitterpunkt.
   steps = 2;
-  offset = (1 << (maxL - 2)) - 1;  // offset =1 da boundary.
   stepsize = (1 << (maxL - 1));
-  parentOffset = (1 << (maxL - 2));
+  parentOffset = stepsize >> 1;
+  offset = parentOffset - 1;  // offset =1 da boundary.
 
   for (IndexType ll = 2; ll <= maxL; ll++) {
     parOffsetStrided = parentOffset * stride;
@@ -367,8 +367,8 @@ inline void dehierarchize1DUnoptimizedNoBoundary(combigrid::FullGrid<FG_ELEMENT>
 
     val[start + offset * stride] += parL;
     steps = steps << 1;
-    offset = (1 << (maxL - (ll + 1))) - 1;  // boundary case
     parentOffset = parentOffset >> 1;
+    offset = parentOffset - 1;  // boundary case
     stepsize = stepsize >> 1;
     //        std::cout << "after hierarchizing level " << ll << std::endl;
     //        printValues(fg);
@@ -419,8 +419,8 @@ inline void dehierarchize1DUnoptimizedBoundary(combigrid::FullGrid<FG_ELEMENT>&
 
     //        val[start+offset*stride] -= parR;
     steps = steps << 1;
-    offset = (1 << (maxL - (ll + 1)));  // boundary case
     parentOffset = parentOffset >> 1;
+    offset = parentOffset;  // boundary case
     stepsize = stepsize >> 1;
   }
 
-- 
2.43.0


From 14ad23d388eda72113766a7ec3d1a37a08d099de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:47 +0000
Subject: [PATCH 44/48] fix: receive the names of exchange files in the order
 the manager sends them

---
 src/manager/ProcessGroupWorker.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 3455e2b..eb64ac0 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -205,22 +205,26 @@ SignalType ProcessGroupWorker<CombiDataType>::wait() {
     } break;
     case COMBINE_WRITE_DSGS: {
       Stats::startEvent("combine third level write");
-      combineThirdLevelFileBasedWrite(receiveStringFromManagerAndBroadcastToGroup(),
-                                      receiveStringFromManagerAndBroadcastToGroup());
+      // one by one: function arguments may be evaluated in any order
+      const std::string fileToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      const std::string writeToken = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedWrite(fileToWrite, writeToken);
       Stats::stopEvent("combine third level write");
     } break;
     case COMBINE_READ_DSGS_AND_REDUCE: {
       Stats::startEvent("combine third level read");
-      combineThirdLevelFileBasedReadReduce({receiveStringFromManagerAndBroadcastToGroup()},
-                                           {receiveStringFromManagerAndBroadcastToGroup()});
+      const std::string fileToRead = receiveStringFromManagerAndBroadcastToGroup();
+      const std::string readToken = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedReadReduce({fileToRead}, {readToken});
       Stats::stopEvent("combine third level read");
     } break;
     case COMBINE_THIRD_LEVEL_FILE: {
       Stats::startEvent("combine third level file");
-      combineThirdLevelFileBased(receiveStringFromManagerAndBroadcastToGroup(),
-                                 receiveStringFromManagerAndBroadcastToGroup(),
-                                 {receiveStringFromManagerAndBroadcastToGroup()},
-                                 {receiveStringFromManagerAndBroadcastToGroup()});
+      const std::string fileToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      const std::string writeToken = receiveStringFromManagerAndBroadcastToGroup();
+      const std::string fileToRead = receiveStringFromManagerAndBroadcastToGroup();
+      const std::string readToken = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBased(fileToWrite, writeToken, {fileToRead}, {readToken});
       Stats::stopEvent("combine third level file");
     } break;
     case WAIT_FOR_TL_COMBI_RESULT: {
-- 
2.43.0


From a89f20115a9f75d7d0b116e28d942c0ec6a14617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:01 +0000
Subject: [PATCH 45/48] fix: complete the receive of a group's status before
 using it

---
 src/manager/ProcessGroupManager.cpp |  2 +-
 src/manager/ProcessGroupManager.hpp | 22 +++++++++-------------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index ba15005..4fe21d7 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -11,7 +11,7 @@ template <typename CombiDataType>
 ProcessGroupManager<CombiDataType>::ProcessGroupManager(RankType pgroupRootID)
     : pgroupRootID_(pgroupRootID),
       status_(PROCESS_GROUP_WAIT),
-      statusRequest_(MPI_Request()),
+      statusRequest_(MPI_REQUEST_NULL),
       statusRequestFT_(nullptr) {}
 
 template <typename CombiDataType>
diff --git a/src/manager/ProcessGroupManager.hpp b/src/manager/ProcessGroupManager.hpp
index c74222e..adf6cdb 100644
--- a/src/manager/ProcessGroupManager.hpp
+++ b/src/manager/ProcessGroupManager.hpp
@@ -367,6 +367,12 @@ using ProcessGroupManagerContainer = std::vector<ProcessGroupManagerID<CombiData
 
 template <typename CombiDataType>
 inline StatusType ProcessGroupManager<CombiDataType>::getStatus() {
+  if (!ENABLE_FT && statusRequest_ != MPI_REQUEST_NULL) {
+    // the status must not be used before it is received, and the receive has to be completed
+    int flag;
+    MPI_Test(&statusRequest_, &flag, MPI_STATUS_IGNORE);
+    if (!flag) return PROCESS_GROUP_BUSY;
+  }
   if (status_ == PROCESS_GROUP_WAIT) return PROCESS_GROUP_WAIT;
 
   if (status_ == PROCESS_GROUP_FAIL) return PROCESS_GROUP_FAIL;
@@ -380,13 +386,6 @@ inline StatusType ProcessGroupManager<CombiDataType>::getStatus() {
       int err = simft::Sim_FT_MPI_Test(&statusRequestFT_, &flag, &stat);
 
       if (err == MPI_ERR_PROC_FAILED) status_ = PROCESS_GROUP_FAIL;
-    } else {
-      /* todo: actually MPI_TEST is not really necessary here. However, i think it
-       * might be a good idea to have this here. MPI_Test might run a system
-       * call which enables the OS to switch to the MPI system.
-       */
-      int flag;
-      MPI_Test(&statusRequest_, &flag, MPI_STATUS_IGNORE);
     }
   }
   //  std::cout << "status is " << status_ << " \n";
@@ -402,6 +401,9 @@ inline void ProcessGroupManager<CombiDataType>::setStatus(StatusType status) {
 
 template <typename CombiDataType>
 inline StatusType ProcessGroupManager<CombiDataType>::waitStatus() {
+  if (!ENABLE_FT && statusRequest_ != MPI_REQUEST_NULL) {
+    MPI_Wait(&statusRequest_, MPI_STATUS_IGNORE);
+  }
   if (status_ == PROCESS_GROUP_WAIT) return PROCESS_GROUP_WAIT;
 
   if (status_ == PROCESS_GROUP_FAIL) return PROCESS_GROUP_FAIL;
@@ -411,12 +413,6 @@ inline StatusType ProcessGroupManager<CombiDataType>::waitStatus() {
       simft::Sim_FT_MPI_Status stat;
       int err = simft::Sim_FT_MPI_Wait(&statusRequestFT_, &stat);
       if (err == MPI_ERR_PROC_FAILED) status_ = PROCESS_GROUP_FAIL;
-    } else {
-      /* todo: actually MPI_TEST is not really necessary here. However, i think it
-       * might be a good idea to have this here. MPI_Test might run a system
-       * call which enables the OS to switch to the MPI system.
-       */
-      MPI_Wait(&statusRequest_, MPI_STATUS_IGNORE);
     }
   }
   assert(status_ >= 0);  // check for invalid values
-- 
2.43.0


From 2b19ba4d67d49e3e59d50f633300cca2ef0e8eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:40 +0000
Subject: [PATCH 46/48] fix: let only one thread write the result of the OpenMP
 level queries

---
 src/mpi/OpenMPUtils.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mpi/OpenMPUtils.cpp b/src/mpi/OpenMPUtils.cpp
index 680e54d..0fd8401 100644
--- a/src/mpi/OpenMPUtils.cpp
+++ b/src/mpi/OpenMPUtils.cpp
@@ -32,20 +32,25 @@ int OpenMPUtils::getNumThreads() {
 
 int OpenMPUtils::getMaximumActiveLevels() {
   int maxActiveLevels = 0;
-#pragma omp parallel default(none) shared(maxActiveLevels)
 #ifdef _OPENMP
-  maxActiveLevels = omp_get_max_active_levels();
+#pragma omp parallel default(none) shared(maxActiveLevels)
+  {
+#pragma omp master
+    maxActiveLevels = omp_get_max_active_levels();
+  }
 #endif
   return maxActiveLevels;
 }
 
 bool OpenMPUtils::setMaximumActiveLevels(int numberOfLevels) {
   bool setSuccessfully = false;
-#pragma omp parallel default(none) shared(setSuccessfully, numberOfLevels)
 #ifdef _OPENMP
-  omp_set_max_active_levels(numberOfLevels);
-  if (OpenMPUtils::getMaximumActiveLevels() == numberOfLevels) {
-    setSuccessfully = true;
+#pragma omp parallel default(none) shared(setSuccessfully, numberOfLevels)
+  {
+    omp_set_max_active_levels(numberOfLevels);
+    const bool isSet = OpenMPUtils::getMaximumActiveLevels() == numberOfLevels;
+#pragma omp master
+    setSuccessfully = isSet;
   }
 #endif
   return setSuccessfully;
-- 
2.43.0


From e75eb41de3d459441b5eedeba0b092273df05f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:40 +0000
Subject: [PATCH 47/48] fix: let threads that register subspaces not delete the
 subspace data at the same time

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index d091182..2932ab3 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -694,7 +694,8 @@ void DistributedSparseGridUniform<FG_ELEMENT>::setDataSize(SubspaceIndexType i,
   }
 #endif  // NDEBUG
   if (newSize != subspacesDataSizes_[i]) {
-    // invalidate the data vector
+    // invalidate the data vector; sizes may be set by several threads at once
+#pragma omp critical(deleteSubspaceData)
     this->deleteSubspaceData();
   }
   subspacesDataSizes_[i] = newSize;
-- 
2.43.0


From 963e3d52ed74afca5dd181b8794a4cedda4f978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:18 +0000
Subject: [PATCH 48/48] fix: do not overflow the number of elements reduced at
 a time for large chunk sizes

---
 src/combicom/CombiCom.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/combicom/CombiCom.hpp b/src/combicom/CombiCom.hpp
index 08d259b..e620443 100644
--- a/src/combicom/CombiCom.hpp
+++ b/src/combicom/CombiCom.hpp
@@ -92,7 +92,10 @@ static int getGlobalReduceChunkSize(uint32_t maxMiBToSendPerThread) {
   auto maxBytesToSend = CombiCom::MiBtoBytes(maxMiBToSendPerThread);
   // allreduce up to 16MiB at a time (when using double precision)
   auto numOMPThreads = OpenMPUtils::getNumThreads();
-  int chunkSize = static_cast<int>(maxBytesToSend / sizeof(SG_ELEMENT) * numOMPThreads);
+  // MPI counts are ints, do not exceed them for large chunks
+  int chunkSize = static_cast<int>(
+      std::min(maxBytesToSend / sizeof(SG_ELEMENT) * static_cast<size_t>(numOMPThreads),
+               static_cast<size_t>(std::numeric_limits<int>::max())));
   assert(chunkSize > 0);
   return chunkSize;
 }
-- 
2.43.0

