From 49cb045f9799692333d7e20c3eb0a8f8d5f05331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 01/15] fix: add the general factor error to the trial error in
 the LM optimizer

The error of the general factor at the trial pose was added to the error of the
current pose, so that trials were compared against a growing reference.
---
 include/small_gicp/registration/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/registration/optimizer.hpp b/include/small_gicp/registration/optimizer.hpp
index cfbf52f..430c5fa 100644
--- a/include/small_gicp/registration/optimizer.hpp
+++ b/include/small_gicp/registration/optimizer.hpp
@@ -111,7 +111,7 @@ struct LevenbergMarquardtOptimizer {
         // Validte new solution
         const Eigen::Isometry3d new_T = result.T_target_source * se3_exp(delta);
         double new_e = reduction.error(target, source, new_T, factors);
-        general_factor.update_error(target, source, new_T, &e);
+        general_factor.update_error(target, source, new_T, &new_e);
 
         if (verbose) {
           std::cout << "iter=" << i << " inner=" << j << " e=" << e << " new_e=" << new_e << " lambda=" << lambda << " dt=" << delta.tail<3>().norm()
-- 
2.43.0


From 70bae0e50cf27782e0a3d8478b5cfd8897faf823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 02/15] fix: reserve enough KdTree nodes for small leaf sizes

With max_leaf_size of 1 or 2 the tree can have up to 2N - 1 nodes.
---
 include/small_gicp/ann/kdtree.hpp     | 2 +-
 include/small_gicp/ann/kdtree_omp.hpp | 2 +-
 include/small_gicp/ann/kdtree_tbb.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index b0d7b34..bdc0387 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -82,7 +82,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     size_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(2 * traits::size(points));  // A tree with at most N leaves has at most 2N - 1 nodes
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
diff --git a/include/small_gicp/ann/kdtree_omp.hpp b/include/small_gicp/ann/kdtree_omp.hpp
index 2968a5e..96303f2 100644
--- a/include/small_gicp/ann/kdtree_omp.hpp
+++ b/include/small_gicp/ann/kdtree_omp.hpp
@@ -26,7 +26,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(2 * traits::size(points));  // A tree with at most N leaves has at most 2N - 1 nodes
 
 #ifndef _MSC_VER
 #pragma omp parallel num_threads(num_threads)
diff --git a/include/small_gicp/ann/kdtree_tbb.hpp b/include/small_gicp/ann/kdtree_tbb.hpp
index 890fbb8..c200035 100644
--- a/include/small_gicp/ann/kdtree_tbb.hpp
+++ b/include/small_gicp/ann/kdtree_tbb.hpp
@@ -18,7 +18,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(2 * traits::size(points));  // A tree with at most N leaves has at most 2N - 1 nodes
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
-- 
2.43.0


From 729e942ade9b40ad56c29aa121f8ec7dadfd608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 03/15] fix: return no neighbor from an empty KdTree

The search dereferenced an uninitialized root when the point cloud was empty.
---
 include/small_gicp/ann/kdtree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index bdc0387..3b97900 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -171,7 +171,9 @@ public:
   /// @return             Number of found neighbors
   size_t knn_search(const Eigen::Vector4d& query, int k, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
     KnnResult<-1> result(k_indices, k_sq_dists, k);
-    knn_search(query, root, result, setting);
+    if (!nodes.empty()) {
+      knn_search(query, root, result, setting);
+    }
     return result.num_found();
   }
 
@@ -184,7 +186,9 @@ public:
   template <int N>
   size_t knn_search(const Eigen::Vector4d& query, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
     KnnResult<N> result(k_indices, k_sq_dists);
-    knn_search(query, root, result, setting);
+    if (!nodes.empty()) {
+      knn_search(query, root, result, setting);
+    }
     return result.num_found();
   }
 
-- 
2.43.0


From b63e4b43d020f1fc1075a9e205e9301c97869735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 04/15] fix: do not emit out-of-range points from voxelgrid
 sampling

The first point of every block was taken as valid, so that a bogus point was
emitted for every block that consists of out-of-range points only.
---
 include/small_gicp/util/downsampling.hpp     | 5 +++++
 include/small_gicp/util/downsampling_omp.hpp | 5 +++++
 include/small_gicp/util/downsampling_tbb.hpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index 97aab23..f565105 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -53,6 +53,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
   const auto compare = [](const auto& lhs, const auto& rhs) { return lhs.first < rhs.first; };
   std::sort(coord_pt.begin(), coord_pt.end(), compare);
 
+  if (coord_pt.front().first == invalid_coord) {
+    // All points are out of range
+    return std::make_shared<OutputPointCloud>();
+  }
+
   auto downsampled = std::make_shared<OutputPointCloud>();
   traits::resize(*downsampled, traits::size(points));
 
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index b616fe7..7f89646 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -64,6 +64,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
 
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 4)
   for (std::int64_t block_begin = 0; block_begin < traits::size(points); block_begin += block_size) {
+    if (coord_pt[block_begin].first == invalid_coord) {
+      // All points in this block are out of range
+      continue;
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index 8d5746e..d5ba0f1 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -64,6 +64,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   const int block_size = 2048;
   std::atomic_uint64_t num_points = 0;
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), block_size), [&](const tbb::blocked_range<size_t>& range) {
+    if (coord_pt[range.begin()].first == invalid_coord) {
+      // All points in this block are out of range
+      return;
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
-- 
2.43.0


From de1f36a6eb6fecedd8de1bb95d293bdd829b6453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 05/15] fix: ignore the homogeneous coordinate in the voxel
 range check

With a leaf size below 2^-20 the scaled w (1 / leaf_size) was out of range and
all points were dropped.
---
 include/small_gicp/util/downsampling.hpp     | 2 +-
 include/small_gicp/util/downsampling_omp.hpp | 2 +-
 include/small_gicp/util/downsampling_tbb.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index f565105..7d9ac89 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -35,7 +35,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
   std::vector<std::pair<std::uint64_t, size_t>> coord_pt(traits::size(points));
   for (size_t i = 0; i < traits::size(points); i++) {
     const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-    if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+    if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
       std::cerr << "warning: voxel coord is out of range!!" << std::endl;
       coord_pt[i] = {invalid_coord, i};
       continue;
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index 7f89646..825a906 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -39,7 +39,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 32)
   for (std::int64_t i = 0; i < traits::size(points); i++) {
     const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-    if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+    if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
       std::cerr << "warning: voxel coord is out of range!!" << std::endl;
       coord_pt[i] = {invalid_coord, i};
       continue;
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index d5ba0f1..6d9c28a 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -39,7 +39,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), 64), [&](const tbb::blocked_range<size_t>& range) {
     for (size_t i = range.begin(); i != range.end(); i++) {
       const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-      if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+      if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
         std::cerr << "warning: voxel coord is out of range!!" << std::endl;
         coord_pt[i] = {invalid_coord, i};
         continue;
-- 
2.43.0


From 6f68db30f8717a901a52a44f0d4c1fda28d33e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 06/15] fix: clear the old search offsets before setting 27
 neighbors

The offsets were appended, so that voxels were visited twice and the same point
was returned several times.
---
 include/small_gicp/ann/incremental_voxelmap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index faa74f0..6ca65ef 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -173,6 +173,7 @@ public:
           Eigen::Vector3i(0, 0, -1)};
         break;
       case 27:
+        search_offsets.clear();
         for (int i = -1; i <= 1; i++) {
           for (int j = -1; j <= 1; j++) {
             for (int k = -1; k <= 1; k++) {
-- 
2.43.0


From fd35c73a264d323df6c8c20983fb98e49a434394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 07/15] fix: do not visit a cell twice when the projective
 search window wraps around the map

With a window wider than the index map the same point was returned several times.
---
 include/small_gicp/ann/projective_search.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/small_gicp/ann/projective_search.hpp b/include/small_gicp/ann/projective_search.hpp
index 3a542ef..879a34d 100644
--- a/include/small_gicp/ann/projective_search.hpp
+++ b/include/small_gicp/ann/projective_search.hpp
@@ -115,12 +115,20 @@ private:
       if (v_clamped < 0 || v_clamped >= index_map.rows()) {
         continue;
       }
+      if (v_clamped != v + dv && std::abs(v_clamped - v) <= search_window_v) {
+        // The window is larger than the map and this row is visited without wrapping
+        continue;
+      }
 
       for (int du = -search_window_h; du <= search_window_h; du++) {
         const int u_clamped = border_h(u + du, index_map.cols());
         if (u_clamped < 0 || u_clamped >= index_map.cols()) {
           continue;
         }
+        if (u_clamped != u + du && std::abs(u_clamped - u) <= search_window_h) {
+          // The window is larger than the map and this column is visited without wrapping
+          continue;
+        }
 
         const auto index = index_map(v_clamped, u_clamped);
         if (index == invalid_index) {
-- 
2.43.0


From 47acebef120803fa1036d55b864511503ad18e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 08/15] fix: validate the given voxel resolution instead of the
 current one

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 315ff67..9d5ba79 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -159,7 +159,7 @@ void RegistrationPCL<PointSource, PointTarget>::setNumNeighborsForCovariance(int
 
 template <typename PointSource, typename PointTarget>
 void RegistrationPCL<PointSource, PointTarget>::setVoxelResolution(double r) {
-  if (voxel_resolution_ <= 0) {
+  if (r <= 0) {
     PCL_ERROR("[RegistrationPCL::setVoxelResolution] Invalid voxel resolution: %f\n", r);
     r = 1.0;
   }
-- 
2.43.0


From d72d4a956c1c4fcf07ad3cd42e116ea838d3a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 09/15] fix: rebuild the voxelmaps after a change of the
 resolution or covariances

RegistrationPCL kept using the voxelmaps created with the old values.
---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 9d5ba79..3c48558 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -74,6 +74,7 @@ void RegistrationPCL<PointSource, PointTarget>::setSourceCovariances(const std::
   }
 
   source_covs_ = covs;
+  source_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
@@ -89,6 +90,7 @@ void RegistrationPCL<PointSource, PointTarget>::setTargetCovariances(const std::
   }
 
   target_covs_ = covs;
+  target_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
@@ -164,6 +166,10 @@ void RegistrationPCL<PointSource, PointTarget>::setVoxelResolution(double r) {
     r = 1.0;
   }
 
+  if (voxel_resolution_ != r) {
+    target_voxelmap_.reset();
+    source_voxelmap_.reset();
+  }
   voxel_resolution_ = r;
 }
 
-- 
2.43.0


From 47c57534e482590bc20a9d93875dc4357251a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 10/15] fix: update the PCL search trees after swapping source
 and target

getFitnessScore was evaluated against the old target cloud.
---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 3c48558..323989f 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -117,6 +117,10 @@ void RegistrationPCL<PointSource, PointTarget>::swapSourceAndTarget() {
   source_tree_.swap(target_tree_);
   source_covs_.swap(target_covs_);
   source_voxelmap_.swap(target_voxelmap_);
+
+  // Let PCL rebuild the search trees for the swapped clouds (e.g., used in getFitnessScore)
+  this->source_cloud_updated_ = true;
+  this->target_cloud_updated_ = true;
 }
 
 template <typename PointSource, typename PointTarget>
-- 
2.43.0


From 30bbd5d36a551cee21811ebcf549630537335dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 11/15] fix: keep the state of RegistrationPCL when PCL rejects
 an input cloud

An empty first cloud was rejected by PCL but then dereferenced as a null pointer.
---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 323989f..3164e53 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -44,6 +44,10 @@ void RegistrationPCL<PointSource, PointTarget>::setInputSource(const PointCloudS
   }
 
   pcl::Registration<PointSource, PointTarget, Scalar>::setInputSource(cloud);
+  if (input_ != cloud) {
+    return;  // Rejected by PCL (e.g., empty cloud)
+  }
+
   source_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointSource>>>(input_, KdTreeBuilderOMP(num_threads_));
   source_covs_.clear();
   source_voxelmap_.reset();
@@ -56,6 +60,10 @@ void RegistrationPCL<PointSource, PointTarget>::setInputTarget(const PointCloudT
   }
 
   pcl::Registration<PointSource, PointTarget, Scalar>::setInputTarget(cloud);
+  if (target_ != cloud) {
+    return;  // Rejected by PCL (e.g., empty cloud)
+  }
+
   target_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointTarget>>>(target_, KdTreeBuilderOMP(num_threads_));
   target_covs_.clear();
   target_voxelmap_.reset();
-- 
2.43.0


From 0d02464c3a46bd47627af0d4cb16b1978962688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 12/15] fix: apply max_correspondence_distance in the VGICP
 helper

---
 src/small_gicp/registration/registration_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 73b01bd..2168d9c 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -129,6 +129,7 @@ RegistrationResult align(const GaussianVoxelMap& target, const PointCloud& sourc
 
   Registration<GICPFactor, ParallelReductionOMP> registration;
   registration.reduction.num_threads = setting.num_threads;
+  registration.rejector.max_dist_sq = setting.max_correspondence_distance * setting.max_correspondence_distance;
   registration.criteria.rotation_eps = setting.rotation_eps;
   registration.criteria.translation_eps = setting.translation_eps;
   registration.optimizer.max_iterations = setting.max_iterations;
-- 
2.43.0


From 3fa8c9d903d93e59c6e488bbf61c8edd0fcefd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 13/15] fix: set the homogeneous coordinate of Nx4 numpy points
 to one

PointCloud and preprocess_points took the fourth column (e.g., intensity) as the
homogeneous coordinate while the other functions ignore it.
---
 src/python/pointcloud.cpp | 2 +-
 src/python/preprocess.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/pointcloud.cpp b/src/python/pointcloud.cpp
index 39197f8..f24750e 100644
--- a/src/python/pointcloud.cpp
+++ b/src/python/pointcloud.cpp
@@ -31,7 +31,7 @@ void define_pointcloud(py::module& m) {
           }
         } else {
           for (size_t i = 0; i < points.rows(); i++) {
-            pc->point(i) << points.row(i).transpose();
+            pc->point(i) << points.row(i).head<3>().transpose(), 1.0;
           }
         }
 
diff --git a/src/python/preprocess.cpp b/src/python/preprocess.cpp
index a849c2a..110d7bb 100644
--- a/src/python/preprocess.cpp
+++ b/src/python/preprocess.cpp
@@ -221,7 +221,7 @@ void define_preprocess(py::module& m) {
         if (points_numpy.cols() == 3) {
           points->point(i) << points_numpy.row(i).transpose(), 1.0;
         } else {
-          points->point(i) << points_numpy.row(i).transpose();
+          points->point(i) << points_numpy.row(i).head<3>().transpose(), 1.0;
         }
       }
 
-- 
2.43.0


From c318ca61f2b4f5f4b5baf99f85f4e78447e27d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 14/15] fix: forward the number of threads to the downsampling
 in preprocess_points

---
 src/small_gicp/registration/registration_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 2168d9c..d1209ba 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -26,7 +26,7 @@ std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>> preprocess_point
     estimate_normals_covariances(*downsampled, *kdtree, num_neighbors);
     return {downsampled, kdtree};
   } else {
-    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution);
+    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution, num_threads);
     auto kdtree = std::make_shared<KdTree<PointCloud>>(downsampled);
     estimate_normals_covariances_omp(*downsampled, *kdtree, num_neighbors, num_threads);
     return {downsampled, kdtree};
-- 
2.43.0


From 3237289d25fa1900e61a68e5630745ee4150fa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 15/15] fix: initialize PCL points with covariance (w = 1, zero
 normal and covariance)

---
 include/small_gicp/pcl/pcl_point.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_point.hpp b/include/small_gicp/pcl/pcl_point.hpp
index 2ba8ad7..f2fd8fa 100644
--- a/include/small_gicp/pcl/pcl_point.hpp
+++ b/include/small_gicp/pcl/pcl_point.hpp
@@ -14,6 +14,11 @@ struct PointCovariance {
   PCL_ADD_POINT4D;        ///< Point coordinates
   Eigen::Matrix4f cov;    ///< 4x4 covariance matrix
 
+  /// @brief Constructor (x = y = z = 0, w = 1, cov = 0)
+  PointCovariance() : cov(Eigen::Matrix4f::Zero()) {
+    getVector4fMap() << 0.0f, 0.0f, 0.0f, 1.0f;
+  }
+
   /// @brief Get covariance matrix as Matrix4fMap
   Matrix4fMap getCovariance4fMap() { return Matrix4fMap(cov.data()); }
 
@@ -29,6 +34,12 @@ struct PointNormalCovariance {
   PCL_ADD_NORMAL4D      ///< Point normal
   Eigen::Matrix4f cov;  ///< 4x4 covariance matrix
 
+  /// @brief Constructor (x = y = z = 0, w = 1, normal = 0, cov = 0)
+  PointNormalCovariance() : cov(Eigen::Matrix4f::Zero()) {
+    getVector4fMap() << 0.0f, 0.0f, 0.0f, 1.0f;
+    getNormalVector4fMap().setZero();
+  }
+
   /// @brief Get covariance matrix as Matrix4fMap
   Matrix4fMap getCovariance4fMap() { return Matrix4fMap(cov.data()); }
 
-- 
2.43.0

