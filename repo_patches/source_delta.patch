From 518b2e2ab84bdb6b95d5a9ae9db3af452fe39fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:41 +0000
Subject: [PATCH 01/60] fix: refuse truncated cloud files instead of loading
 default points

---
 builder/data/cloud_types.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 67bc517..1ba84aa 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -155,7 +155,7 @@ int InnerPointType::Serialize(std::fstream* stream) const {
 int InnerPointType::Deserialize(std::fstream* stream) {
   if (stream && stream->is_open()) {
     stream->read(reinterpret_cast<char*>(this), sizeof(InnerPointType));
-    if (stream->good() || stream->eof()) {
+    if (stream->good()) {
       return sizeof(InnerPointType);
     } else {
       return -1;
@@ -217,12 +217,14 @@ int InnerCloudType::Deserialize(std::fstream* stream) {
     if (!stream->good()) {
       return -1;
     }
-    // Read points.
-    points.resize(size);
+    // Read points. The size is not trusted before the points are actually read.
+    points.clear();
     for (size_t i = 0; i < size; ++i) {
-      if (points[i].Deserialize(stream) < 0) {
+      InnerPointType point;
+      if (point.Deserialize(stream) < 0) {
         return -1;
       }
+      points.push_back(point);
     }
     return 0;
   }
-- 
2.43.0


From 9de9c53f3c4f00f3780dacd5c95104796fec6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:41 +0000
Subject: [PATCH 02/60] fix: set the dimensions of converted pcl clouds so that
 saved pcd files are readable

---
 builder/data/cloud_types.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 1ba84aa..f294045 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -285,6 +285,9 @@ void ToPclPointCloud(const InnerCloudType& cloud,
       pcl_cloud->points.push_back(pcl_point);
     }
   }
+  // Keep the dimensions valid, otherwise the cloud can not be saved correctly.
+  pcl_cloud->width = pcl_cloud->points.size();
+  pcl_cloud->height = 1;
 }
 
 void EigenPointCloud::ApplyTransform(const Eigen::Matrix4d& transform) {
-- 
2.43.0


From a3643993c21793cace426ae79a5dc4534ae9f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:41 +0000
Subject: [PATCH 03/60] fix: DistanceToLine for directions that are not unit
 vectors

---
 common/math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/math.h b/common/math.h
index 9b34c27..2293ad3 100644
--- a/common/math.h
+++ b/common/math.h
@@ -215,8 +215,9 @@ double DistanceToLine(const Eigen::Matrix<double, N, 1>& point,
                       const Eigen::Matrix<double, N, 1>& origin,
                       const Eigen::Matrix<double, N, 1>& direction) {
   const Eigen::Matrix<double, N, 1> op = point - origin;
+  const Eigen::Matrix<double, N, 1> unit_direction = direction.normalized();
   const Eigen::Matrix<double, N, 1> oc =
-      op.dot(direction) * direction.normalized();
+      op.dot(unit_direction) * unit_direction;
   return (oc - op).norm();
 }
 
-- 
2.43.0


From 3ced61fd9742e95be7deea16a462b94ab7387799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:41 +0000
Subject: [PATCH 04/60] fix: average rotations correctly around +-180 degrees

---
 common/math.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/common/math.cc b/common/math.cc
index afa07e1..d58dbca 100644
--- a/common/math.cc
+++ b/common/math.cc
@@ -173,22 +173,31 @@ std::vector<Eigen::Vector3i> VoxelCastingDDA(const Eigen::Vector3f& ray_start,
   return visited_voxels;
 }
 
-// TODO(edward) use slerp
 template <typename T>
 Eigen::Rigid3::Transform<T> AverageTransforms(
     const std::vector<Eigen::Rigid3::Transform<T>>& transforms) {
   CHECK(!transforms.empty());
-  Eigen::Rigid3::Eulers<T> angles(0, 0, 0);
+  // Average quaternions instead of euler angles: the angles can not be averaged
+  // around +-180 degrees.
+  const Eigen::Quaternion<T> reference(
+      Eigen::Rigid3::Rotation<T>(transforms.front().block(0, 0, 3, 3)));
+  Eigen::Matrix<T, 4, 1> coeffs = Eigen::Matrix<T, 4, 1>::Zero();
   Eigen::Rigid3::Translation<T> translation(0, 0, 0);
   for (const Eigen::Rigid3::Transform<T>& transform : transforms) {
     translation += transform.block(0, 3, 3, 1);
-    angles += RotationMatrixToEulerAngles(
+    const Eigen::Quaternion<T> q(
         Eigen::Rigid3::Rotation<T>(transform.block(0, 0, 3, 3)));
+    // q and -q are the same rotation
+    if (q.dot(reference) < T(0)) {
+      coeffs -= q.coeffs();
+    } else {
+      coeffs += q.coeffs();
+    }
   }
   translation /= static_cast<T>(transforms.size());
-  angles /= static_cast<T>(transforms.size());
+  const Eigen::Quaternion<T> average(coeffs);
   Eigen::Rigid3::Transform<T> result = Eigen::Rigid3::Transform<T>::Identity();
-  result.block(0, 0, 3, 3) = common::EulerAnglesToRotationMatrix(angles);
+  result.block(0, 0, 3, 3) = average.normalized().toRotationMatrix();
   result.block(0, 3, 3, 1) = translation;
 
   return result;
-- 
2.43.0


From 583df24d1f8f711567e2a3cfe3867db62d1b2472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:41 +0000
Subject: [PATCH 05/60] fix: splitting a cube that is not around the origin
 aborted on rounding

---
 common/bounding_box.cc | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/common/bounding_box.cc b/common/bounding_box.cc
index 3274604..0bb38ad 100644
--- a/common/bounding_box.cc
+++ b/common/bounding_box.cc
@@ -53,22 +53,14 @@ std::vector<CubeBoundingBox> CubeBoundingBox::GenerateSubBoxes() const {
   ///  x > 0, y < 0, z > 0: 3
   ///  ... for z < 0 : [4, 7]
   /// "0" means the center of the voxel which we want to split into 8 parts.
-  return {CubeBoundingBox(center_, max_),
-          CubeBoundingBox(center_ - Eigen::Vector3d(half_size_, 0, 0),
-                          max_ - Eigen::Vector3d(half_size_, 0, 0)),
-          CubeBoundingBox(center_ - Eigen::Vector3d(half_size_, half_size_, 0),
-                          max_ - Eigen::Vector3d(half_size_, half_size_, 0)),
-          CubeBoundingBox(center_ - Eigen::Vector3d(0, half_size_, 0),
-                          max_ - Eigen::Vector3d(0, half_size_, 0)),
-          CubeBoundingBox(center_ - Eigen::Vector3d(0, 0, half_size_),
-                          max_ - Eigen::Vector3d(0, 0, half_size_)),
-          CubeBoundingBox(center_ - Eigen::Vector3d(half_size_, 0, half_size_),
-                          max_ - Eigen::Vector3d(half_size_, 0, half_size_)),
-          CubeBoundingBox(
-              center_ - Eigen::Vector3d(half_size_, half_size_, half_size_),
-              max_ - Eigen::Vector3d(half_size_, half_size_, half_size_)),
-          CubeBoundingBox(center_ - Eigen::Vector3d(0, half_size_, half_size_),
-                          max_ - Eigen::Vector3d(0, half_size_, half_size_))};
+  const double quarter_size = 0.5 * half_size_;
+  const auto sub_box = [&](double x, double y, double z) {
+    return CubeBoundingBox(center_ + quarter_size * Eigen::Vector3d(x, y, z),
+                           half_size_);
+  };
+  return {sub_box(1, 1, 1),    sub_box(-1, 1, 1),  sub_box(-1, -1, 1),
+          sub_box(1, -1, 1),   sub_box(1, 1, -1),  sub_box(-1, 1, -1),
+          sub_box(-1, -1, -1), sub_box(1, -1, -1)};
 }
 
 int CubeBoundingBox::GetSubBoxIndexForPoint(
-- 
2.43.0


From b66bfbf4bf63f62d1ba4a7e8b63315ae0703c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:51 +0000
Subject: [PATCH 06/60] fix: octree kept points outside of its cube and lost
 points on inner borders

---
 common/bounding_box.cc |  6 +++---
 common/bounding_box.h  |  4 ++++
 common/octree.cc       | 19 +++++++++++--------
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/common/bounding_box.cc b/common/bounding_box.cc
index 0bb38ad..1e79955 100644
--- a/common/bounding_box.cc
+++ b/common/bounding_box.cc
@@ -65,10 +65,10 @@ std::vector<CubeBoundingBox> CubeBoundingBox::GenerateSubBoxes() const {
 
 int CubeBoundingBox::GetSubBoxIndexForPoint(
     const Eigen::Vector3d& point) const {
-  if (!ContainsPoint(point)) {
-    return -1;
-  }
+  return ContainsPoint(point) ? GetOctantForPoint(point) : -1;
+}
 
+int CubeBoundingBox::GetOctantForPoint(const Eigen::Vector3d& point) const {
   const Eigen::Vector3d offseted_point = point - center_;
   int index = 0;
   if (offseted_point[0] >= 0.) {
diff --git a/common/bounding_box.h b/common/bounding_box.h
index 921a933..8ae58a8 100644
--- a/common/bounding_box.h
+++ b/common/bounding_box.h
@@ -50,6 +50,10 @@ class CubeBoundingBox {
   /// for the given point.
   int GetSubBoxIndexForPoint(const Eigen::Vector3d& point) const;
 
+  /// @brief GetOctantForPoint: same index as GetSubBoxIndexForPoint, without
+  /// checking if the point is in the box.
+  int GetOctantForPoint(const Eigen::Vector3d& point) const;
+
   /// @brief ContainsPoint: return whether the given point is in the box.
   bool ContainsPoint(const Eigen::Vector3d& point) const;
 
diff --git a/common/octree.cc b/common/octree.cc
index ff2b066..03a7b65 100644
--- a/common/octree.cc
+++ b/common/octree.cc
@@ -55,10 +55,8 @@ std::shared_ptr<OctreeNode> Octree::BuildTree(
   const auto sub_bboxes = bbox.GenerateSubBoxes();
   std::vector<OctreePoint> sub_points[8];
   for (const auto& point : points) {
-    const int index = bbox.GetSubBoxIndexForPoint(point);
-    if (index < 0) {
-      continue;
-    }
+    // The points are already known to be in the box.
+    const int index = bbox.GetOctantForPoint(point);
     CHECK_LT(index, 8);
     sub_points[index].push_back(point);
   }
@@ -74,13 +72,18 @@ std::shared_ptr<OctreeNode> Octree::BuildTree(
 void Octree::InitWithPointCloud(const Eigen::MatrixXd& points) {
   CHECK_GE(points.rows(), 3);
 
+  const CubeBoundingBox root_bbox(config_.center, config_.max_size);
   const int size = points.cols();
-  std::vector<OctreePoint> points_vec(size);
+  std::vector<OctreePoint> points_vec;
+  points_vec.reserve(size);
   for (int i = 0; i < size; ++i) {
-    points_vec[i] = points.col(i).topRows(3);
+    const OctreePoint point = points.col(i).topRows(3);
+    if (root_bbox.ContainsPoint(point)) {
+      points_vec.push_back(point);
+    }
   }
-  root_ = BuildTree(0, CubeBoundingBox(config_.center, config_.max_size),
-                    points_vec);
+  max_depth_ = 0;
+  root_ = BuildTree(0, root_bbox, points_vec);
 }
 
 void Octree::RecursiveOutput() {
-- 
2.43.0


From 59788106b71c908a90442b3e523a3a8fb7253b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:08 +0000
Subject: [PATCH 07/60] fix: pass-through filters repeated their inliers when
 run twice

---
 pre_processors/filter_axis_range.cc    | 1 +
 pre_processors/filter_random_sample.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pre_processors/filter_axis_range.cc b/pre_processors/filter_axis_range.cc
index f25513c..0426464 100644
--- a/pre_processors/filter_axis_range.cc
+++ b/pre_processors/filter_axis_range.cc
@@ -50,6 +50,7 @@ void AxisRange::Filter(const data::InnerCloudType::Ptr& cloud) {
   if (min_ == -std::numeric_limits<float>::max() &&
       max_ == std::numeric_limits<float>::max()) {
     *cloud = *this->inner_cloud_;
+    this->inliers_.clear();
     for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
       this->inliers_.push_back(i);
     }
diff --git a/pre_processors/filter_random_sample.cc b/pre_processors/filter_random_sample.cc
index 5c5c68d..1e1797f 100644
--- a/pre_processors/filter_random_sample.cc
+++ b/pre_processors/filter_random_sample.cc
@@ -43,6 +43,7 @@ void RandomSampler::Filter(const data::InnerCloudType::Ptr& cloud) {
   }
   if (sampling_rate_ > 0.999) {
     *cloud = *this->inner_cloud_;
+    this->inliers_.clear();
     for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
       this->inliers_.push_back(i);
     }
-- 
2.43.0


From ab3b574b0a5a7738c70d636cac42bdd01753b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:09 +0000
Subject: [PATCH 08/60] fix: range filter overflowed the stack on large clouds

---
 pre_processors/filter_range.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pre_processors/filter_range.cc b/pre_processors/filter_range.cc
index b7e7a4e..39f5b18 100644
--- a/pre_processors/filter_range.cc
+++ b/pre_processors/filter_range.cc
@@ -23,6 +23,7 @@
 #include "pre_processors/filter_range.h"
 
 #include <limits>
+#include <vector>
 
 namespace static_map {
 namespace pre_processers {
@@ -51,7 +52,7 @@ void Range::Filter(const data::InnerCloudType::Ptr& cloud) {
   this->FilterPrepare(cloud);
   const int size = this->inner_cloud_->points.size();
   // Do not use std::vector<bool>, it's not thread safe in omp threads.
-  bool is_inlier[size];  // NOLINT
+  std::vector<uint8_t> is_inlier(size);
   // TODO(edward) more test on the efficiency
 #ifdef _OPENMP
 #pragma omp parallel for num_threads(LOCAL_OMP_THREADS_NUM)
@@ -61,9 +62,9 @@ void Range::Filter(const data::InnerCloudType::Ptr& cloud) {
     float range =
         std::sqrt(point.x * point.x + point.y * point.y + point.z * point.z);
     if (range >= min_range_ && range <= max_range_) {
-      is_inlier[i] = true;
+      is_inlier[i] = 1;
     } else {
-      is_inlier[i] = false;
+      is_inlier[i] = 0;
     }
   }
 
-- 
2.43.0


From e42ec7e23ad59793bf83dc4adc0a55feb4458d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:22 +0000
Subject: [PATCH 09/60] fix: range image accepted points below its field of
 view in the first row

---
 pre_processors/filter_range_image.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pre_processors/filter_range_image.cc b/pre_processors/filter_range_image.cc
index a54ccbc..60172af 100644
--- a/pre_processors/filter_range_image.cc
+++ b/pre_processors/filter_range_image.cc
@@ -109,7 +109,9 @@ void RangeImage::Filter(const data::InnerCloudType::Ptr &cloud) {
       continue;
     }
     vertical_rad = std::atan2(point.z, distance_in_xy);
-    row_index = (vertical_rad - btm_angle_ / 180.f * M_PI) / image_vertical_res;
+    // round down: -0.5 is below the image and not in the first row
+    row_index = std::floor((vertical_rad - btm_angle_ / 180.f * M_PI) /
+                           image_vertical_res);
     if (row_index < 0 || row_index >= vertical_line_num_) {
       this->outliers_.push_back(i);
       continue;
-- 
2.43.0


From 609150cdd26f49901078b1f92b2805211c70d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:22 +0000
Subject: [PATCH 10/60] fix: range image filter returned nothing when run twice

---
 pre_processors/filter_range_image.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pre_processors/filter_range_image.cc b/pre_processors/filter_range_image.cc
index 60172af..10218d3 100644
--- a/pre_processors/filter_range_image.cc
+++ b/pre_processors/filter_range_image.cc
@@ -86,6 +86,8 @@ void RangeImage::Filter(const data::InnerCloudType::Ptr &cloud) {
   }
 
   this->FilterPrepare(cloud);
+  map_image_.clear();
+  matrix_image_.setZero();
   const float image_horizontal_res =
       M_PI * 2 / static_cast<float>(horizontal_line_num_);
   const float image_vertical_res = (top_angle_ - btm_angle_) /
-- 
2.43.0


From 2c38d2dd28ac6176a216c081d3b85609d8506ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:22 +0000
Subject: [PATCH 11/60] fix: depth clusters of an earlier cloud indexed into
 the current one

---
 pre_processors/filter_range_image.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pre_processors/filter_range_image.cc b/pre_processors/filter_range_image.cc
index 10218d3..5e0cb23 100644
--- a/pre_processors/filter_range_image.cc
+++ b/pre_processors/filter_range_image.cc
@@ -146,6 +146,10 @@ void RangeImage::Filter(const data::InnerCloudType::Ptr &cloud) {
 
 void RangeImage::DepthCluster(const LabeledPointCloudPtr &cloud) {
   CHECK(this->inner_cloud_ != nullptr);
+  clusters_.clear();
+  for (auto &index_pixel : map_image_) {
+    index_pixel.second.label = 0;
+  }
   LabelT label = 1;
   for (int row = 0; row < vertical_line_num_; ++row) {
     for (int col = 0; col < horizontal_line_num_; ++col) {
-- 
2.43.0


From 25ce115360782443477e9f9bf74b8f45a41f091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:22 +0000
Subject: [PATCH 12/60] fix: points exactly on the ground line were not removed

---
 pre_processors/filter_ground_removal2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pre_processors/filter_ground_removal2.cc b/pre_processors/filter_ground_removal2.cc
index 832db9b..fa809d8 100644
--- a/pre_processors/filter_ground_removal2.cc
+++ b/pre_processors/filter_ground_removal2.cc
@@ -372,12 +372,12 @@ void GroundRemoval2::ClusterGround(const std::vector<Segment>& segments,
 
             distance =
                 VerticalDistanceToSegment(point, segments.at(can_seg_index));
-            if (distance > 0.) {
+            if (distance >= 0.) {
               break;
             }
           }
         }
-        if (distance > 0. && distance <= max_dist_to_line_) {
+        if (distance >= 0. && distance <= max_dist_to_line_) {
           // this is a ground removal filter
           // so, if you found a point on ground
           // you should add it into outliers
-- 
2.43.0


From 90bff569028f290bcf0400f9171390efa7998a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:22 +0000
Subject: [PATCH 13/60] fix: ground removal used points out of range and
 aborted on nan points

---
 pre_processors/filter_ground_removal2.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pre_processors/filter_ground_removal2.cc b/pre_processors/filter_ground_removal2.cc
index fa809d8..dae567b 100644
--- a/pre_processors/filter_ground_removal2.cc
+++ b/pre_processors/filter_ground_removal2.cc
@@ -162,7 +162,8 @@ void GroundRemoval2::SetInputCloud(const data::InnerCloudType::Ptr& cloud) {
   for (int i = 0; i < size; ++i) {
     auto& point = this->inner_cloud_->points[i];
     float range = std::sqrt(point.x * point.x + point.y * point.y);
-    if (range < r_min_ && range > r_max_) {
+    // written this way, it is also false for nan
+    if (!(range >= r_min_ && range <= r_max_) || !std::isfinite(point.z)) {
       inner_points[i].s_index = -1;
       inner_points[i].b_index = -1;
     } else {
-- 
2.43.0


From 27d866dd2b11da74c2ed566aa2e45ba48414ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:58 +0000
Subject: [PATCH 14/60] fix: a chain starting with StatisticRemoval lost all
 points and the stamp

---
 pre_processors/filter_statistic_removal.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pre_processors/filter_statistic_removal.cc b/pre_processors/filter_statistic_removal.cc
index 451fe40..4ca2b9b 100644
--- a/pre_processors/filter_statistic_removal.cc
+++ b/pre_processors/filter_statistic_removal.cc
@@ -54,8 +54,13 @@ void StatisticRemoval::Filter(const data::InnerCloudType::Ptr &cloud) {
   // sor.setStddevMulThresh(std_mul_);
   // sor.filter(*cloud);
   // TODO(edward) implement statistic removal upon inner cloud type
-
-  // @todo inliers and outliers
+  // until then, all the points are inliers
+  *cloud = *this->inner_cloud_;
+  this->inliers_.clear();
+  this->outliers_.clear();
+  for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
+    this->inliers_.push_back(i);
+  }
 }
 
 }  // namespace filter
-- 
2.43.0


From 3985e0f2f15db7c938c73aa2e94416563ff8a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:44 +0000
Subject: [PATCH 15/60] fix: threads registering their first timer at once
 created several managers

---
 common/performance/simple_prof.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/performance/simple_prof.h b/common/performance/simple_prof.h
index 7b5aac2..3b19abe 100644
--- a/common/performance/simple_prof.h
+++ b/common/performance/simple_prof.h
@@ -69,9 +69,10 @@ class SimpleTimer {
 class TimerManager {
  public:
   static std::shared_ptr<TimerManager> Instance() {
-    if (!instance_) {
+    static std::once_flag created;
+    std::call_once(created, [] {
       instance_ = std::shared_ptr<TimerManager>(new TimerManager);
-    }
+    });
     return instance_;
   }
 
-- 
2.43.0


From 7491885dfc495e734c8c84282d9adeb693344bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:44 +0000
Subject: [PATCH 16/60] fix: profiled times above 2^31 units were not printed

---
 common/performance/simple_prof.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/performance/simple_prof.cc b/common/performance/simple_prof.cc
index 633271b..3976533 100644
--- a/common/performance/simple_prof.cc
+++ b/common/performance/simple_prof.cc
@@ -79,7 +79,7 @@ TimerManager::~TimerManager() {
   std::cout << std::endl;
 
   const auto time_to_string = [&](const int64_t time) -> std::string {
-    int factored_time = time * output_factor[unit_].second;
+    int64_t factored_time = time * output_factor[unit_].second;
     return (factored_time >= 1 ? std::to_string(factored_time) : "<1");
   };
   const auto merge_vectors_into_one =
-- 
2.43.0


From 4b35f7b8e1c4b5030a847da56bc7f4cabc5c1cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:44 +0000
Subject: [PATCH 17/60] fix: stop flag of the process profiler was shared
 without synchronisation

---
 common/performance/process_info.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/performance/process_info.h b/common/performance/process_info.h
index 923a9ad..3ca1ba5 100644
--- a/common/performance/process_info.h
+++ b/common/performance/process_info.h
@@ -30,6 +30,7 @@
 #include <sys/stat.h>
 #include <sys/time.h>
 #include <unistd.h>
+#include <atomic>
 #include <fstream>
 #include <iostream>
 #include <queue>
@@ -63,7 +64,7 @@ class ProcessProfiler {
 
   pid_t pid_;
   std::thread profiling_thread_;
-  bool run_ = true;
+  std::atomic<bool> run_{true};
 };
 
 }  // namespace performance
-- 
2.43.0


From c0c2eee8ac2860af1cab1fa3abdcacbbec3ea720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:54 +0000
Subject: [PATCH 18/60] fix: transforming a cloud translated its normals

---
 builder/data/cloud_types.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index f294045..e2e2068 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -301,8 +301,8 @@ void EigenPointCloud::ApplyTransform(const Eigen::Matrix4d& transform) {
 
   if (normals.cols() > 0) {
     CHECK_EQ(normals.cols(), points_count);
-    homo_data.block(0, 0, 3, points_count) = normals;
-    normals = (transform * homo_data).block(0, 0, 3, points_count);
+    // normals are directions, they are not translated
+    normals = (transform.block(0, 0, 3, 3) * normals).eval();
   }
 }
 
-- 
2.43.0


From 469c19986ad9173ad9ae362228f5b2958ea3899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:54 +0000
Subject: [PATCH 19/60] fix: motion compensation used an uninitialised
 transform

---
 builder/data/cloud_types.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index e2e2068..1517615 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -314,11 +314,11 @@ void EigenPointCloud::ApplyMotionCompensation(
   CHECK_EQ(cloud_size, factors.size());
 
   for (size_t i = 0; i < cloud_size; ++i) {
-    const Eigen::Matrix4d transform = common::InterpolateTransform(
+    const Eigen::Matrix4d point_transform = common::InterpolateTransform(
         Eigen::Matrix4d::Identity().eval(), transform, factors[i]);
     const Eigen::Vector3d new_point_start =
-        transform.block(0, 0, 3, 3) * points.col(i).topRows(3) +
-        transform.block(0, 3, 3, 1);
+        point_transform.block(0, 0, 3, 3) * points.col(i).topRows(3) +
+        point_transform.block(0, 3, 3, 1);
     points.col(i).topRows(3) = new_point_start;
   }
 
-- 
2.43.0


From c006962f4034f1d2cc931f057ddb103a2f966d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:54 +0000
Subject: [PATCH 20/60] fix: calculating normals again read beyond the
 remaining points

---
 builder/data/cloud_types.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 1517615..e4a8441 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -351,7 +351,16 @@ void EigenPointCloud::FromPointCloud(
 
 void EigenPointCloud::CalculateNormals() {
   const int points_num = points.cols();
+  if (points_num == 0) {
+    return;
+  }
   normals.resize(kDim, points_num);
+  // The indices may still belong to the points of a former calculation.
+  indices.resize(points_num);
+  for (int i = 0; i < points_num; ++i) {
+    indices[i] = i;
+  }
+  indices_to_keep.clear();
 
   // step1 normal estimation and filtering
   BuildNormals(this, 0, points_num, points.rowwise().minCoeff(),
@@ -367,7 +376,9 @@ void EigenPointCloud::CalculateNormals() {
     CHECK(i <= k);
     points.col(i) = points.col(k);
     normals.col(i) = normals.col(k);
+    factors[i] = factors[k];
   }
+  factors.resize(points_count_remained);
   points.conservativeResize(Eigen::NoChange, points_count_remained);
   normals.conservativeResize(Eigen::NoChange, points_count_remained);
 }
-- 
2.43.0


From 0630ec491e87d171081e235f18913e4ed897e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:54 +0000
Subject: [PATCH 21/60] fix: normals of planes through the origin were not
 finite

---
 builder/data/cloud_types.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index e4a8441..808a905 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -91,7 +91,18 @@ void CalculateNormals(EigenPointCloud* const data, const int first,
     return;
   }
 
-  Eigen::VectorXd normal = M_wave.inverse() * Eigen::VectorXd(b_wave);
+  Eigen::VectorXd normal;
+  Eigen::FullPivLU<Eigen::Matrix3d> lu(Eigen::Matrix3d{M_wave});
+  lu.setThreshold(1.e-10);
+  if (lu.isInvertible()) {
+    normal = lu.solve(Eigen::Vector3d(b_wave));
+  } else {
+    // The origin is on the plane (or the points are on a line), there is no
+    // normal with normal * point == 1.
+    normal = Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d>(Eigen::Matrix3d(C))
+                 .eigenvectors()
+                 .col(0);
+  }
 
   // sampling in a simple way
   // use just one point in a box
-- 
2.43.0


From f7aa9395ca0d9d965b785b1e87787b443f06b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:07 +0000
Subject: [PATCH 22/60] fix: pose extrapolation returned an outdated prediction
 after a new pose

---
 builder/pose_extrapolator.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index be3ff6a..7541d89 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -90,10 +90,11 @@ SimpleTime PoseExtrapolator::GetLastExtrapolatedTime() {
 void PoseExtrapolator::AddPose(const SimpleTime time, const RigidPose3d& pose) {
   common::MutexLocker locker(&mutex_);
   timed_pose_queue_.emplace_back(time, pose);
+  // The prediction made before is outdated now.
+  cached_extrapolated_pose_.time = time;
+  cached_extrapolated_pose_.pose = pose;
   if (timed_pose_queue_.size() == 1u) {
     // It's the first pose and the only pose.
-    cached_extrapolated_pose_.time = time;
-    cached_extrapolated_pose_.pose = pose;
     return;
   }
 
@@ -211,6 +212,10 @@ void PoseExtrapolator::InitRoughLinearVelocity(
     const Eigen::Vector3d& velocity) {
   common::MutexLocker locker(&mutex_);
   linear_velocity_from_poses_ = velocity;
+  if (!timed_pose_queue_.empty()) {
+    // The prediction made before is outdated now.
+    cached_extrapolated_pose_ = timed_pose_queue_.back();
+  }
 }
 
 void PoseExtrapolator::UpdateVelocitiesFromPoses() {
-- 
2.43.0


From 6334a4a6a879e9f5ae85de113cfcc00948e31f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:07 +0000
Subject: [PATCH 23/60] fix: extrapolating with imu crashed as long as there
 was only one pose

---
 builder/pose_extrapolator.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index 7541d89..76d5215 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -93,10 +93,6 @@ void PoseExtrapolator::AddPose(const SimpleTime time, const RigidPose3d& pose) {
   // The prediction made before is outdated now.
   cached_extrapolated_pose_.time = time;
   cached_extrapolated_pose_.pose = pose;
-  if (timed_pose_queue_.size() == 1u) {
-    // It's the first pose and the only pose.
-    return;
-  }
 
   while (timed_pose_queue_.size() > 2 &&
          timed_pose_queue_[1].time <= time - pose_queue_duration_) {
-- 
2.43.0


From 392b19c697a2f801a280bdc2ecd10d6ed6dc784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:07 +0000
Subject: [PATCH 24/60] fix: odometry velocity was rotated by the translation
 of the pose

---
 builder/pose_extrapolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index 76d5215..6237827 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -162,7 +162,7 @@ void PoseExtrapolator::AddOdometryData(const data::OdomMsg& odometry_data) {
           common::Translation(odometry_pose_delta) / odometry_time_delta;
   const Eigen::Quaterniond orientation_at_newest_odometry_time =
       Eigen::Quaterniond(
-          Eigen::Matrix3d(timed_pose_queue_.back().pose.block(0, 3, 3, 1))) *
+          Eigen::Matrix3d(timed_pose_queue_.back().pose.block(0, 0, 3, 3))) *
       ExtrapolateRotation(odometry_data_newest.header.stamp,
                           odometry_imu_tracker_.get());
   linear_velocity_from_odometry_ =
-- 
2.43.0


From c092eeb06911af93be473290f43ae926970deda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:07 +0000
Subject: [PATCH 25/60] fix: an imu message without acceleration aborted the
 tracker

---
 builder/imu_tracker.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/builder/imu_tracker.cc b/builder/imu_tracker.cc
index 1ba049f..c00081c 100644
--- a/builder/imu_tracker.cc
+++ b/builder/imu_tracker.cc
@@ -56,8 +56,13 @@ void ImuTracker::AddImuLinearAccelerationObservation(
                              : std::numeric_limits<double>::infinity();
   last_linear_acceleration_time_ = time_;
   const double alpha = 1. - std::exp(-delta_t / imu_gravity_time_constant_);
-  gravity_vector_ =
+  const Eigen::Vector3d gravity_vector =
       (1. - alpha) * gravity_vector_ + alpha * imu_linear_acceleration;
+  if (!(gravity_vector.norm() > 1.e-6)) {
+    // There is no direction in it.
+    return;
+  }
+  gravity_vector_ = gravity_vector;
   // Change the 'orientation_' so that it agrees with the current
   // 'gravity_vector_'.
   const Eigen::Quaterniond rotation = Eigen::Quaterniond::FromTwoVectors(
-- 
2.43.0


From 500b6ef742140cf50c415c990c2032abc06b7ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:30 +0000
Subject: [PATCH 26/60] fix: gps and odometry paths were read without their
 lock

---
 builder/data/data_collector.cc | 3 +++
 builder/data/data_collector.h  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 42461d3..9ce25d6 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -57,6 +57,7 @@ DataCollector::~DataCollector() {
 }
 
 void DataCollector::RawGpsDataToFile(const std::string& filename) const {
+  Locker locker(mutex_[kGpsData]);
   if (!enu_path_cloud_.empty()) {
     PRINT_INFO_FMT("output raw gps data into file: %s", filename.c_str());
     pcl::io::savePCDFileBinaryCompressed(filename, enu_path_cloud_);
@@ -64,6 +65,7 @@ void DataCollector::RawGpsDataToFile(const std::string& filename) const {
 }
 
 void DataCollector::RawOdomDataToFile(const std::string& filename) const {
+  Locker locker(mutex_[kOdometryData]);
   if (!odom_path_cloud_.empty()) {
     PRINT_INFO_FMT("output raw odom data into file: %s", filename.c_str());
     pcl::io::savePCDFileBinaryCompressed(filename, odom_path_cloud_);
@@ -297,6 +299,7 @@ std::unique_ptr<Eigen::Matrix4d> DataCollector::InterpolateOdom(
 
 boost::optional<GeographicLib::LocalCartesian> DataCollector::GetGpsReference()
     const {
+  Locker locker(mutex_[kGpsData]);
   return reference_gps_point_;
 }
 
diff --git a/builder/data/data_collector.h b/builder/data/data_collector.h
index f5c7154..74d4066 100644
--- a/builder/data/data_collector.h
+++ b/builder/data/data_collector.h
@@ -131,7 +131,7 @@ class DataCollector {
  private:
   /// every kind of data has its own mutex
   /// avoiding resource competition between different kind of data
-  std::mutex mutex_[kDataTypeCount];
+  mutable std::mutex mutex_[kDataTypeCount];
   const DataCollectorOptions options_;
 
   std::deque<InnerCloudType::Ptr> cloud_data_;
-- 
2.43.0


From dd4698b72c2f687850078b6de719a99379ae205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:30 +0000
Subject: [PATCH 27/60] fix: threads printing messages shared the buffer of the
 file name

---
 common/macro_defines.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/macro_defines.cc b/common/macro_defines.cc
index 4fbb55e..05a2796 100644
--- a/common/macro_defines.cc
+++ b/common/macro_defines.cc
@@ -29,7 +29,7 @@
 
 namespace static_map {
 
-static char filename[128] = {'\0'};
+static thread_local char filename[128] = {'\0'};
 char* splited_file_name(const char* file) {
   memset(filename, 0, sizeof(filename));
   std::string str = file;
-- 
2.43.0


From d1600ce0267d105b8f66689b0be963e0d3bce044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:30 +0000
Subject: [PATCH 28/60] fix: cloud pre-processing thread raced with
 construction, intake and shutdown

---
 builder/data/data_collector.cc | 20 ++++++++++++--------
 builder/data/data_collector.h  |  2 +-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 9ce25d6..c5ed510 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -37,8 +37,7 @@ namespace data {
 DataCollector::DataCollector(const DataCollectorOptions& options,
                              pre_processers::filter::Factory* const filter)
     : options_(options),
-      cloud_processing_thread_(
-          std::bind(&DataCollector::CloudPreProcessing, this)),
+      kill_cloud_preprocessing_thread_(false),
       filter_factory_(filter),
       accumulated_cloud_count_(0) {
   // reserve the vectors for less memory copy when push_back
@@ -47,6 +46,9 @@ DataCollector::DataCollector(const DataCollectorOptions& options,
   gps_data_.reserve(reserve_size);
   enu_path_cloud_.points.reserve(reserve_size);
   odom_path_cloud_.points.reserve(reserve_size);
+  // the thread uses the other members, so start it after all of them are ready
+  cloud_processing_thread_ =
+      std::thread(std::bind(&DataCollector::CloudPreProcessing, this));
 }
 
 DataCollector::~DataCollector() {
@@ -124,16 +126,18 @@ void DataCollector::CloudPreProcessing() {
     if (kill_cloud_preprocessing_thread_) {
       break;
     }
-    if (cloud_data_before_preprocessing_.empty()) {
-      SimpleTime::FromSec(0.005).Sleep();
-      continue;
-    }
 
     InnerCloudType::Ptr data;
     {
       Locker locker(mutex_[kPointCloudData]);
-      data = cloud_data_before_preprocessing_.front();
-      cloud_data_before_preprocessing_.pop_front();
+      if (!cloud_data_before_preprocessing_.empty()) {
+        data = cloud_data_before_preprocessing_.front();
+        cloud_data_before_preprocessing_.pop_front();
+      }
+    }
+    if (!data) {
+      SimpleTime::FromSec(0.005).Sleep();
+      continue;
     }
 
     // filtering cloud
diff --git a/builder/data/data_collector.h b/builder/data/data_collector.h
index 74d4066..e4b433c 100644
--- a/builder/data/data_collector.h
+++ b/builder/data/data_collector.h
@@ -137,7 +137,7 @@ class DataCollector {
   std::deque<InnerCloudType::Ptr> cloud_data_;
   std::deque<InnerCloudType::Ptr> cloud_data_before_preprocessing_;
 
-  bool kill_cloud_preprocessing_thread_ = false;
+  std::atomic_bool kill_cloud_preprocessing_thread_;
   std::thread cloud_processing_thread_;
   pre_processers::filter::Factory* filter_factory_;
   std::vector<ImuData> imu_data_;
-- 
2.43.0


From a82d29bd5ef6f3c9cd6f02048d6106cf4a37090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:30 +0000
Subject: [PATCH 29/60] fix: a scan without any point left aborted the mapping

---
 builder/data/data_collector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index c5ed510..1123afc 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -144,6 +144,10 @@ void DataCollector::CloudPreProcessing() {
     InnerCloudType::Ptr filtered_cloud(new InnerCloudType);
     filter_factory_->SetInputCloud(data);
     filter_factory_->Filter(filtered_cloud);
+    if (filtered_cloud->points.empty()) {
+      PRINT_WARNING("skip a cloud without any point left.");
+      continue;
+    }
     CHECK(data->stamp == filtered_cloud->stamp);
 
     // insert new data
-- 
2.43.0


From 15b92a539d2057941b4b929e9be6d9a828560a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:36 +0000
Subject: [PATCH 30/60] fix: static map files without averaging contained no
 points

---
 builder/multi_resolution_voxel_map.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 4917d30..15861dd 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -158,7 +158,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
           }
           pcl::PointXYZI pcl_point;
           data::ToPclPoint(point, &pcl_point);
-          cloud->points.push_back(pcl_point);
+          cloud->push_back(pcl_point);
         }
       }
     }
@@ -206,7 +206,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
           rgb_point.y = point.y;
           rgb_point.z = point.z;
           rgb_point.r = rgb_point.g = rgb_point.b = rgb;
-          cloud->points.push_back(rgb_point);
+          cloud->push_back(rgb_point);
         }
       }
     }
-- 
2.43.0


From 5142c3a3c8d24c82e6f5d9932f61c3244f8cf7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:36 +0000
Subject: [PATCH 31/60] fix: exporting the static map at probability 1 exported
 every cell

---
 builder/multi_resolution_voxel_map.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 15861dd..ebcdb21 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -126,10 +126,11 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
     const float threshold, const pcl::PointCloud<pcl::PointXYZI>::Ptr& cloud) {
   if (!cloud) {
     PRINT_WARNING("cloud is nullptr. do nothing!");
+    return;
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
-  const Probability prob_threshold = threshold * kTableSize;
+  const int prob_threshold = threshold * kTableSize;
   for (auto& high_res_voxel : high_resolution_voxels_) {
     if (high_res_voxel.second.probability >= prob_threshold) {
       CHECK(!high_res_voxel.second.points.empty());
@@ -171,10 +172,11 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
     const pcl::PointCloud<pcl::PointXYZRGB>::Ptr& cloud) {
   if (!cloud) {
     PRINT_WARNING("cloud is nullptr. do nothing!");
+    return;
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
-  const Probability prob_threshold = threshold * kTableSize;
+  const int prob_threshold = threshold * kTableSize;
   for (auto& high_res_voxel : high_resolution_voxels_) {
     if (high_res_voxel.second.probability >= prob_threshold) {
       CHECK(!high_res_voxel.second.points.empty());
-- 
2.43.0


From 8bb9f461e54575d2a32311e57d45d6024070a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:14 +0000
Subject: [PATCH 32/60] fix: parallel insertion into the voxel map lost hits
 and exceeded the point limit

---
 builder/multi_resolution_voxel_map.cc | 27 +++++++++++++--------------
 builder/multi_resolution_voxel_map.h  |  8 ++++++--
 common/atomic_wrapper.h               |  8 ++++++++
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index ebcdb21..e22da7c 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -62,10 +62,11 @@ void MultiResolutionVoxelMap::InsertPointCloud(
   offseted_origin[2] += settings_.z_offset;
   const float hit_log_odd = ProbabilityToOdd(settings_.hit_prob);
   const float miss_log_odd = ProbabilityToOdd(settings_.miss_prob);
-  auto update_prob = [&](Probability former_prob, bool hit) -> float {
+  auto update_prob = [&](Probability former_prob, bool hit) -> Probability {
     float odd = odds_table_[former_prob];
     odd += hit ? hit_log_odd : miss_log_odd;
-    return Clamp(OddToProbability(odd), kMinProb, kMaxProb);
+    return static_cast<Probability>(
+        Clamp(OddToProbability(odd), kMinProb, kMaxProb) * kTableSize);
   };
 
   size_t point_index = 0;
@@ -86,18 +87,16 @@ void MultiResolutionVoxelMap::InsertPointCloud(
     if (!high_res_indices.empty()) {
       const KeyInt3 high_end_index = high_res_indices.back();
       high_resolution_voxels_[high_end_index].need_update = kFalse;
-      end_voxels[high_end_index] = true;
+      end_voxels.emplace(high_end_index, true);
 
       auto& voxel = high_resolution_voxels_[high_end_index];
-      auto& prob = voxel.probability;
-      // TODO(edward) actually this compare and store is not atomic operaion.
-      // Try to find another way to achieve this.
-      if (static_cast<int>(point.intensity) >
-          static_cast<int>(voxel.max_intensity)) {
-        voxel.max_intensity = static_cast<int>(point.intensity);
-      }
-      prob = (Probability)(update_prob(prob, true) * kTableSize);
-      if (voxel.points.size() < settings_.max_point_num_in_cell) {
+      // several threads can meet in one voxel
+      voxel.max_intensity.Update([&](int32_t former_intensity) {
+        return std::max(former_intensity, static_cast<int32_t>(point.intensity));
+      });
+      voxel.probability.Update(
+          [&](Probability prob) { return update_prob(prob, true); });
+      if (voxel.hit_count++ < settings_.max_point_num_in_cell) {
         FATAL_CHECK_POINT(point);
         voxel.points.push_back(point);
       }
@@ -110,8 +109,8 @@ void MultiResolutionVoxelMap::InsertPointCloud(
                 high_resolution_voxels_.end() &&
             high_resolution_voxels_[high_index].need_update == kTrue) {
           // update the probability
-          auto& prob = high_resolution_voxels_[high_index].probability;
-          prob = (Probability)(update_prob(prob, false) * kTableSize);
+          high_resolution_voxels_[high_index].probability.Update(
+              [&](Probability prob) { return update_prob(prob, false); });
         }
       }
     }
diff --git a/builder/multi_resolution_voxel_map.h b/builder/multi_resolution_voxel_map.h
index 13bc44a..ae2c53a 100644
--- a/builder/multi_resolution_voxel_map.h
+++ b/builder/multi_resolution_voxel_map.h
@@ -118,10 +118,14 @@ class MultiResolutionVoxelMap {
  private:
   struct HighResolutionVoxel {
     HighResolutionVoxel()
-        : probability(kUnknown), need_update(kTrue), max_intensity(0) {}
-    Probability probability;
+        : probability(kUnknown),
+          need_update(kTrue),
+          max_intensity(0),
+          hit_count(0) {}
+    common::AtomicWrapper<Probability> probability;
     AtomicBool need_update;
     AtomicInt max_intensity;
+    AtomicInt hit_count;
     PointVector points;
   };
 
diff --git a/common/atomic_wrapper.h b/common/atomic_wrapper.h
index b9d0ef3..99b799e 100644
--- a/common/atomic_wrapper.h
+++ b/common/atomic_wrapper.h
@@ -50,6 +50,14 @@ class AtomicWrapper {
 
   operator T();
 
+  /// @brief Replace the value with update(value) in one atomic step.
+  template <typename UpdateFunction>
+  void Update(const UpdateFunction& update) {
+    T former_value = atom_.load();
+    while (!atom_.compare_exchange_weak(former_value, update(former_value))) {
+    }
+  }
+
   /// @brief Pre-increment
   template <std::enable_if_t<std::is_integral<T>::value, bool> = true>
   T operator++() {
-- 
2.43.0


From 099bb0982741e715087eceda7a7eba6de8a2c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:45 +0000
Subject: [PATCH 33/60] fix: the voxel size configured for submaps was ignored

---
 builder/submap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/submap.cc b/builder/submap.cc
index c643af4..0133ce4 100644
--- a/builder/submap.cc
+++ b/builder/submap.cc
@@ -146,7 +146,7 @@ void Submap::InsertFrame(const std::shared_ptr<Frame>& frame) {
       pre_processers::filter::VoxelGrid voxel_filter;
 
       const std::string filter_config_text =
-          "<filter name=\"RandomSampler\" >"
+          "<filter name=\"VoxelGrid\" >"
           "<param type=\"1\" name=\"voxel_size\">" +
           std::to_string(options_.voxel_size) +
           "</param>"
-- 
2.43.0


From e4107bd58e0eb499139f26fc4a2389fc8a81ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:45 +0000
Subject: [PATCH 34/60] fix: clouds swapped to disk lost their normals and
 could be read half-way

Reload the normals, notice incomplete files, write changed clouds again
before they are released and lock the access to the clouds.
---
 builder/data/cloud_types.cc | 83 ++++++++++++++++++++++++++++---------
 builder/data/cloud_types.h  | 13 ++++--
 2 files changed, 74 insertions(+), 22 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 808a905..64d679e 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -408,11 +408,16 @@ bool InnerPointCloudData::EmptyImpl() const {
 }
 
 void InnerPointCloudData::Clear() {
-  if (!(is_cloud_in_memory_.load())) {
+  boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
+  if (!is_cloud_in_memory_.load()) {
     return;
   }
-  boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
   common::WriteMutexLocker write_locker(locker);
+  if (!filename_.empty() && !file_up_to_date_) {
+    // The cloud has changed since it was saved, loading it again from the old
+    // file would bring back outdated points.
+    WriteFileImpl();
+  }
   // TODO(edward) reset or just clear the inner points.
   eigen_cloud_.reset(new EigenPointCloud);
   inner_cloud_.reset(new InnerCloudType);
@@ -422,6 +427,10 @@ void InnerPointCloudData::Clear() {
 void InnerPointCloudData::TransformCloud(const Eigen::Matrix4d& T) {
   boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
   common::WriteMutexLocker write_locker(locker);
+  if (SwappedOutImpl()) {
+    ReadFileImpl();
+  }
+  file_up_to_date_ = false;
   if (!EmptyImpl()) {
     inner_cloud_->ApplyTransformInplace(T);
   }
@@ -434,12 +443,15 @@ void InnerPointCloudData::CalculateNormals() {
   // Use this carefully, this function is not locked.
   CHECK(eigen_cloud_);
   eigen_cloud_->CalculateNormals();
+  normals_calculated_ = true;
 }
 
 void InnerPointCloudData::SetInnerCloud(const InnerCloudType::Ptr cloud) {
   boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
   common::WriteMutexLocker write_locker(locker);
   SetInnerCloudImpl(cloud);
+  file_up_to_date_ = false;
+  normals_calculated_ = false;
 }
 
 void InnerPointCloudData::SetInnerCloudImpl(const InnerCloudType::Ptr cloud) {
@@ -452,16 +464,43 @@ void InnerPointCloudData::SetInnerCloudImpl(const InnerCloudType::Ptr cloud) {
   is_cloud_in_memory_ = true;
 }
 
-bool InnerPointCloudData::SaveToFile(const std::string& filename) {
-  common::ReadMutexLocker locker(mutex_);
-  CHECK(!filename.empty());
-  CHECK(!EmptyImpl());
-  filename_ = filename;
+bool InnerPointCloudData::SwappedOutImpl() const {
+  return !is_cloud_in_memory_.load() && !filename_.empty();
+}
 
+void InnerPointCloudData::WriteFileImpl() {
   std::fstream of(filename_, std::ios::out | std::ios::binary);
   CHECK(of.is_open()) << "Could not open file: " << filename_;
   CHECK_GE(inner_cloud_->Serialize(&of), 0);
   of.close();
+  CHECK(of.good()) << "Could not write file: " << filename_;
+  file_up_to_date_ = true;
+}
+
+void InnerPointCloudData::ReadFileImpl() {
+  InnerCloudType::Ptr inner_cloud(new InnerCloudType);
+  std::fstream bin_fs(filename_, std::ios::in | std::ios::binary);
+  CHECK(bin_fs.is_open()) << "Could not open file: " << filename_;
+  CHECK_GE(inner_cloud->Deserialize(&bin_fs), 0)
+      << "Could not read file: " << filename_;
+  bin_fs.close();
+
+  SetInnerCloudImpl(inner_cloud);
+  if (normals_calculated_) {
+    eigen_cloud_->CalculateNormals();
+  }
+}
+
+bool InnerPointCloudData::SaveToFile(const std::string& filename) {
+  boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
+  common::WriteMutexLocker write_locker(locker);
+  CHECK(!filename.empty());
+  if (SwappedOutImpl()) {
+    ReadFileImpl();
+  }
+  CHECK(!EmptyImpl());
+  filename_ = filename;
+  WriteFileImpl();
   return true;
 }
 
@@ -469,26 +508,32 @@ bool InnerPointCloudData::CloudInMemory() {
   boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
   if (!is_cloud_in_memory_.load()) {
     common::WriteMutexLocker write_locker(locker);
-
-    InnerCloudType::Ptr inner_cloud(new InnerCloudType);
-    std::fstream bin_fs(filename_, std::ios::in | std::ios::binary);
-    CHECK(bin_fs.is_open()) << "Could not open file: " << filename_;
-    inner_cloud->Deserialize(&bin_fs);
-    bin_fs.close();
-
-    SetInnerCloudImpl(inner_cloud);
-    is_cloud_in_memory_ = true;
+    ReadFileImpl();
     // PRINT_DEBUG("get submap data from disk.");
   }
   return is_cloud_in_memory_.load();
 }
 
-std::shared_ptr<EigenPointCloud> InnerPointCloudData::GetEigenCloud() const {
+std::shared_ptr<EigenPointCloud> InnerPointCloudData::GetEigenCloud() {
+  boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
+  if (SwappedOutImpl()) {
+    common::WriteMutexLocker write_locker(locker);
+    ReadFileImpl();
+  }
   return eigen_cloud_;
 }
 
-const SimpleTime& InnerPointCloudData::GetTime() const { return time_; }
-InnerCloudType::Ptr InnerPointCloudData::GetInnerCloud() const {
+SimpleTime InnerPointCloudData::GetTime() {
+  common::ReadMutexLocker locker(mutex_);
+  return time_;
+}
+
+InnerCloudType::Ptr InnerPointCloudData::GetInnerCloud() {
+  boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
+  if (SwappedOutImpl()) {
+    common::WriteMutexLocker write_locker(locker);
+    ReadFileImpl();
+  }
   return inner_cloud_;
 }
 
diff --git a/builder/data/cloud_types.h b/builder/data/cloud_types.h
index 317f6ab..ea63c85 100644
--- a/builder/data/cloud_types.h
+++ b/builder/data/cloud_types.h
@@ -174,13 +174,17 @@ class InnerPointCloudData {
   bool CloudInMemory();
 
   /// Set Geters.
-  EigenPointCloud::Ptr GetEigenCloud() const;
-  const SimpleTime& GetTime() const;
-  InnerCloudType::Ptr GetInnerCloud() const;
+  /// @notice The clouds are loaded from file if they have been swapped out.
+  EigenPointCloud::Ptr GetEigenCloud();
+  SimpleTime GetTime();
+  InnerCloudType::Ptr GetInnerCloud();
 
  private:
   void SetInnerCloudImpl(const InnerCloudType::Ptr cloud);
   bool EmptyImpl() const;
+  bool SwappedOutImpl() const;
+  void WriteFileImpl();
+  void ReadFileImpl();
 
  private:
   common::ReadWriteMutex mutex_;
@@ -189,6 +193,9 @@ class InnerPointCloudData {
   EigenPointCloud::Ptr eigen_cloud_;
   SimpleTime time_;
   std::string filename_;
+  // if the file contains the current points
+  bool file_up_to_date_ = false;
+  bool normals_calculated_ = false;
   std::atomic<bool> is_cloud_in_memory_;
 
   PROHIBIT_COPY_AND_ASSIGN(InnerPointCloudData);
-- 
2.43.0


From c0c577c36ea945943491a3e772cc1a88ac3eca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:45 +0000
Subject: [PATCH 35/60] fix: a submap just accessed was swapped out, saving a
 swapped cloud aborted

---
 builder/frame.cc  | 2 +-
 builder/submap.cc | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/builder/frame.cc b/builder/frame.cc
index 1b96844..985e433 100644
--- a/builder/frame.cc
+++ b/builder/frame.cc
@@ -49,7 +49,7 @@ std::string FrameId::DebugString() const {
 Frame::Frame() : FrameBase() {}
 
 void Frame::ToPcdFile(const std::string& filename) {
-  CHECK(this->inner_cloud_ && !this->inner_cloud_->Empty());
+  CHECK(this->inner_cloud_ && this->inner_cloud_->CloudInMemory());
   const std::string actual_filename =
       filename.empty() ? id_.DebugString() + ".bin" : filename;
   this->inner_cloud_->SaveToFile(actual_filename);
diff --git a/builder/submap.cc b/builder/submap.cc
index 0133ce4..6ac37cc 100644
--- a/builder/submap.cc
+++ b/builder/submap.cc
@@ -230,13 +230,16 @@ bool Submap::UpdateInactiveTime(const int update_time_in_sec) {
   cloud_inactive_time_ += update_time_in_sec;
   if (cloud_inactive_time_ > options_.disk_saving_delay) {
     WriteMutexLocker write_locker(locker);
-    this->inner_cloud_->Clear();
+    // The cloud may have been accessed while waiting for the readers.
+    if (cloud_inactive_time_ > options_.disk_saving_delay) {
+      this->inner_cloud_->Clear();
+    }
   }
   return true;
 }
 
 void Submap::ToPcdFile(const std::string& filename) {
-  CHECK(this->inner_cloud_ && !this->inner_cloud_->Empty());
+  CHECK(this->inner_cloud_ && this->inner_cloud_->CloudInMemory());
   this->inner_cloud_->SaveToFile(filename);
 }
 
-- 
2.43.0


From 7c3a58a3e519480fee0126a2d3a8fe5bba130bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:45 +0000
Subject: [PATCH 36/60] fix: the memory manager accessed submaps still being
 added

---
 builder/trajectory.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/builder/trajectory.h b/builder/trajectory.h
index 027f35b..9d1df69 100644
--- a/builder/trajectory.h
+++ b/builder/trajectory.h
@@ -23,7 +23,9 @@
 #ifndef BUILDER_TRAJECTORY_H_
 #define BUILDER_TRAJECTORY_H_
 // stl
+#include <atomic>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -62,6 +64,20 @@ class Trajectory : public tbb::concurrent_vector<std::shared_ptr<Submap>> {
   PROHIBIT_COPY_AND_ASSIGN(Trajectory);
 
   using Ptr = std::shared_ptr<Trajectory>;
+  using Base = tbb::concurrent_vector<std::shared_ptr<Submap>>;
+
+  // @notice tbb::concurrent_vector already counts elements which are still
+  // under construction in another thread, so the functions below only deal
+  // with the submaps that have been added completely.
+  void push_back(const std::shared_ptr<Submap>& submap) {
+    std::lock_guard<std::mutex> locker(push_mutex_);
+    Base::push_back(submap);
+    submap_count_ = Base::size();
+  }
+  size_t size() const { return submap_count_.load(); }
+  bool empty() const { return size() == 0; }
+  iterator end() { return begin() + size(); }
+  const_iterator end() const { return begin() + size(); }
 
   // Trajectory APIs
   void SetId(int id) { id_ = id; }
@@ -73,6 +89,8 @@ class Trajectory : public tbb::concurrent_vector<std::shared_ptr<Submap>> {
 
  private:
   int id_;
+  std::mutex push_mutex_;
+  std::atomic<size_t> submap_count_{0};
   // @todo(edward) change to enu offset
   double enu_offset_x_ = 0.;
   double enu_offset_y_ = 0.;
-- 
2.43.0


From 9edd3518a169283b131a7e989af6a2eae31eaea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:45 +0000
Subject: [PATCH 37/60] fix: pieces of the map package contained no points,
 many pieces overflowed the stack

---
 builder/map_package.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/builder/map_package.cc b/builder/map_package.cc
index fd080c0..bc81a12 100644
--- a/builder/map_package.cc
+++ b/builder/map_package.cc
@@ -23,6 +23,7 @@
 #include "builder/map_package.h"
 
 #include <string>
+#include <vector>
 #include "Eigen/Eigen"
 
 #include "builder/multi_resolution_voxel_map.h"
@@ -115,8 +116,10 @@ bool SaveTrajectoriesAsMapPackage(
   };
   const Eigen::Vector2d part_offset(map_package_options.border_offset,
                                     map_package_options.border_offset);
-  SeperatedPart<PointT> parts[x_steps][y_steps];
+  // There can be too many parts for the stack.
+  std::vector<std::vector<SeperatedPart<PointT>>> parts(x_steps);
   for (int x = 0; x < x_steps; ++x) {
+    parts[x].resize(y_steps);
     for (int y = 0; y < y_steps; ++y) {
       auto& part = parts[x][y];
       part.center << min_x + (x + 1) * half_width, min_y + (y + 1) * half_width;
@@ -193,7 +196,7 @@ bool SaveTrajectoriesAsMapPackage(
                         part.bb_max)) {
           point.x -= part.center[0];
           point.y -= part.center[1];
-          part.cloud->points.push_back(point);
+          part.cloud->push_back(point);
         }
       }
 
@@ -202,7 +205,7 @@ bool SaveTrajectoriesAsMapPackage(
                              std::to_string(x) + "_" + std::to_string(y) +
                              ".pcd";
       pcl::io::savePCDFileBinaryCompressed(export_path + filename, *part.cloud);
-      part.cloud->points.clear();
+      part.cloud->clear();
       part.cloud->points.shrink_to_fit();
     }
   }
-- 
2.43.0


From e2bda8ccd41c555c60dd975c9365a052dc958469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:45 +0000
Subject: [PATCH 38/60] fix: joining a map package ignored missing pieces

---
 tools/join_pieces.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/join_pieces.cc b/tools/join_pieces.cc
index e8cf915..5f90336 100644
--- a/tools/join_pieces.cc
+++ b/tools/join_pieces.cc
@@ -66,6 +66,7 @@ int main(int argc, char** argv) {
     pcl::PointCloud<pcl::PointXYZI> piece_cloud;
     if (pcl::io::loadPCDFile<pcl::PointXYZI>(pcd_file, piece_cloud) == -1) {
       std::cout << "Error loading pointcloud from this file." << std::endl;
+      return -1;
     } else {
       Eigen::Matrix4d transform = Eigen::Matrix4d::Identity();
       transform(0, 3) = piece_node.attribute("x").as_double();
-- 
2.43.0


From d8e1ab7a2a8b701d309ca6a812b494543a964199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:25 +0000
Subject: [PATCH 39/60] fix: Size the graph picture by the current vertices

The bounding box started at the smallest positive double, so graphs at
negative coordinates were drawn far too large.  It also kept the old
places of moved vertices and grew by a margin on every export.
---
 back_end/view_graph.cc | 43 ++++++++++++++++--------------------------
 back_end/view_graph.h  |  6 +-----
 2 files changed, 17 insertions(+), 32 deletions(-)

diff --git a/back_end/view_graph.cc b/back_end/view_graph.cc
index b199c66..b0b193b 100644
--- a/back_end/view_graph.cc
+++ b/back_end/view_graph.cc
@@ -32,13 +32,6 @@
 namespace static_map {
 namespace back_end {
 
-ViewGraph::ViewGraph() {
-  min_bounding_ << std::numeric_limits<double>::max(),
-      std::numeric_limits<double>::max();
-  max_bounding_ << std::numeric_limits<double>::min(),
-      std::numeric_limits<double>::min();
-}
-
 void ViewGraph::AddEdge(const int64_t a, const int64_t b,
                         const Eigen::Matrix4d &t) {
   if (graph_map_.count(a) == 0 || graph_map_.count(b) == 0) {
@@ -50,19 +43,6 @@ void ViewGraph::AddEdge(const int64_t a, const int64_t b,
 
 void ViewGraph::AddVertex(const int64_t index, const Eigen::Matrix4d &pose) {
   graph_map_[index].self_pose = pose;
-  // update bbox
-  if (pose(0, 3) < min_bounding_[0]) {
-    min_bounding_[0] = pose(0, 3);
-  }
-  if (pose(1, 3) < min_bounding_[1]) {
-    min_bounding_[1] = pose(1, 3);
-  }
-  if (pose(0, 3) > max_bounding_[0]) {
-    max_bounding_[0] = pose(0, 3);
-  }
-  if (pose(1, 3) > max_bounding_[1]) {
-    max_bounding_[1] = pose(1, 3);
-  }
 }
 
 void ViewGraph::SaveTextFile(const std::string &filename) {
@@ -94,19 +74,28 @@ void ViewGraph::SaveImage(const std::string &filename,
     return;
   }
 
+  const Eigen::Matrix4d &first_pose = graph_map_.begin()->second.self_pose;
+  Eigen::Vector2d min_bounding(first_pose(0, 3), first_pose(1, 3));
+  Eigen::Vector2d max_bounding = min_bounding;
+  for (auto &item : graph_map_) {
+    const Eigen::Vector2d position(item.second.self_pose(0, 3),
+                                   item.second.self_pose(1, 3));
+    min_bounding = min_bounding.cwiseMin(position);
+    max_bounding = max_bounding.cwiseMax(position);
+  }
   const double edge_width = 1.;
-  max_bounding_[0] += edge_width;
-  max_bounding_[1] += edge_width;
-  min_bounding_[0] -= edge_width;
-  min_bounding_[1] -= edge_width;
-  Eigen::Vector2d image_bbox = max_bounding_ - min_bounding_;
+  max_bounding[0] += edge_width;
+  max_bounding[1] += edge_width;
+  min_bounding[0] -= edge_width;
+  min_bounding[1] -= edge_width;
+  Eigen::Vector2d image_bbox = max_bounding - min_bounding;
   image_bbox /= resolution;
   // std::cout << image_bbox << std::endl;
 
   auto pose_to_image = [&](const Eigen::Matrix4d &pose) -> std::pair<int, int> {
     Eigen::Vector2d image_position(pose(0, 3), pose(1, 3));
-    image_position[0] -= min_bounding_[0];
-    image_position[1] = max_bounding_[1] - image_position[1];
+    image_position[0] -= min_bounding[0];
+    image_position[1] = max_bounding[1] - image_position[1];
     image_position /= resolution;
     return std::make_pair(static_cast<int>(image_position[0]),
                           static_cast<int>(image_position[1]));
diff --git a/back_end/view_graph.h b/back_end/view_graph.h
index a2233b1..230ad57 100644
--- a/back_end/view_graph.h
+++ b/back_end/view_graph.h
@@ -38,7 +38,7 @@ namespace back_end {
 
 class ViewGraph {
  public:
-  ViewGraph();
+  ViewGraph() = default;
   ~ViewGraph() = default;
 
   PROHIBIT_COPY_AND_ASSIGN(ViewGraph);
@@ -74,10 +74,6 @@ class ViewGraph {
 
  private:
   std::map<int64_t, GraphItem> graph_map_;
-
-  // TODO(edward) Use bbox instead.
-  Eigen::Vector2d min_bounding_;
-  Eigen::Vector2d max_bounding_;
 };
 
 }  // namespace back_end
-- 
2.43.0


From 2efdc9b9bb6d8f6ec2dbc3c8f9fc52a8e12f4a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:26:52 +0000
Subject: [PATCH 40/60] fix: Refuse files without points in the sampling and
 path tools

A file without a valid header is read as an empty cloud, so the tools
wrote an output for it and reported success.
---
 tools/path_statistic.cc | 5 +++++
 tools/pcd_sampler.cc    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/tools/path_statistic.cc b/tools/path_statistic.cc
index 611ae69..fe91355 100644
--- a/tools/path_statistic.cc
+++ b/tools/path_statistic.cc
@@ -40,6 +40,11 @@ int main(int argc, char** argv) {
     PCL_ERROR("Couldn't read file\n");
     return (-1);
   }
+  // a file without a valid header is read as an empty cloud
+  if (path_cloud->empty()) {
+    PCL_ERROR("There is no point in the file\n");
+    return (-1);
+  }
 
   std::ofstream path_file("path.csv");
   if (path_file.is_open()) {
diff --git a/tools/pcd_sampler.cc b/tools/pcd_sampler.cc
index fba0fe8..7312375 100644
--- a/tools/pcd_sampler.cc
+++ b/tools/pcd_sampler.cc
@@ -44,6 +44,11 @@ int main(int argc, char** argv) {
     PCL_ERROR("Couldn't read file test_pcd.pcd \n");
     return (-1);
   }
+  // a file without a valid header is read as an empty cloud
+  if (cloud->empty()) {
+    PCL_ERROR("There is no point in the file\n");
+    return (-1);
+  }
 
   pcl::RandomSample<pcl::PointXYZI> sample(true);
   sample.setInputCloud(cloud);
-- 
2.43.0


From 06b3b77ab4456cd8e4e055033f5a561c25939d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:01 +0000
Subject: [PATCH 41/60] fix: Forget the previous cloud when a descriptor is
 computed again

Points of earlier clouds were kept in the descriptor object.  Clouds of
one or two points made the principal component analysis throw.
---
 descriptor/m2dp.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/descriptor/m2dp.cc b/descriptor/m2dp.cc
index 57e6342..2861fb5 100644
--- a/descriptor/m2dp.cc
+++ b/descriptor/m2dp.cc
@@ -54,6 +54,7 @@ void M2dp::preProcess(const data::InnerCloudType::Ptr& source) {
       new pcl::PointCloud<pcl::PointXYZ>);
   pca.project(*pcl_cloud, *tmp_inner_cloud);
 
+  inner_cloud_->points.clear();
   for (auto& point : tmp_inner_cloud->points) {
     double d = getLength<pcl::PointXYZ>(point);
     if (d <= max_distance_) {
@@ -120,8 +121,9 @@ Eigen::VectorXi M2dp::singleViewProcess(double theta, double phi) {
 }
 
 bool M2dp::setInputCloud(const data::InnerCloudType::Ptr& source) {
-  if (source->points.empty()) {
-    PCL_ERROR("source is empty.\n");
+  // at least 3 points are needed for the PCA
+  if (source->points.size() < 3) {
+    PCL_ERROR("source is empty or has too few points.\n");
     return false;
   }
 
-- 
2.43.0


From 55f4f7b2bf14dc43abbb32a1d0e293f46413e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:40 +0000
Subject: [PATCH 42/60] fix: Make the score of the ndt matcher grow with the
 overlap

The raw fitness score is a mean squared distance, so worse matches got
the higher scores, unlike with every other matcher.
---
 registrators/ndt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/registrators/ndt.cc b/registrators/ndt.cc
index 74d6520..d1dd3d0 100644
--- a/registrators/ndt.cc
+++ b/registrators/ndt.cc
@@ -57,7 +57,7 @@ bool Ndt::Align(const Eigen::Matrix4d& guess,
       new pcl::PointCloud<pcl::PointXYZ>);
   inner_matcher_.align(*aligned_cloud, guess.cast<float>());
 
-  this->final_score_ = inner_matcher_.getFitnessScore();
+  this->final_score_ = std::exp(-inner_matcher_.getFitnessScore());
   result = inner_matcher_.getFinalTransformation().template cast<double>();
 
   return true;
-- 
2.43.0


From 6fa482523d37cdf477389e0b642763bb4e4d74b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:39:40 +0000
Subject: [PATCH 43/60] fix: Report failure when a matcher is used without its
 clouds

---
 registrators/icp_fast.cc | 5 +++++
 registrators/ndt_gicp.cc | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/registrators/icp_fast.cc b/registrators/icp_fast.cc
index 1f4f30b..adeaec3 100644
--- a/registrators/icp_fast.cc
+++ b/registrators/icp_fast.cc
@@ -454,6 +454,11 @@ void IcpFast::SetInputTarget(InnerCloudPtr cloud) {
 
 bool IcpFast::Align(const Eigen::Matrix4d& guess,
                     Eigen::Matrix4d& result) {  // NOLINT
+  if (!source_cloud_ || !target_cloud_ || source_cloud_->points.cols() == 0 ||
+      target_cloud_->points.cols() == 0) {
+    return false;
+  }
+
   const int target_points_count = target_cloud_->points.cols();
   const Eigen::Vector3d target_mean =
       target_cloud_->points.rowwise().sum() / target_points_count;
diff --git a/registrators/ndt_gicp.cc b/registrators/ndt_gicp.cc
index 669fe35..4a8b0fe 100644
--- a/registrators/ndt_gicp.cc
+++ b/registrators/ndt_gicp.cc
@@ -54,6 +54,12 @@ void NdtWithGicp::InitWithOptions() {
 
 bool NdtWithGicp::Align(const Eigen::Matrix4d& guess,
                         Eigen::Matrix4d& result) {  // NOLINT
+  if (!this->source_cloud_ || !this->target_cloud_ ||
+      this->source_cloud_->GetInnerCloud()->points.empty() ||
+      this->target_cloud_->GetInnerCloud()->points.empty()) {
+    return false;
+  }
+
   down_sampled_source_cloud_.reset(new PointCloudSource);
   down_sampled_target_cloud_.reset(new PointCloudTarget);
   if (options_.using_voxel_filter) {
-- 
2.43.0


From 206d12eb62ee9048db89d46c8a1027f245fff593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:50 +0000
Subject: [PATCH 44/60] fix: Keep rounding from ending the wait for enough
 rotation

The product of two unit vectors can exceed 1 by rounding.  The angle was
then not a number and the position frame was solved at once.
---
 back_end/isam_optimizer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/back_end/isam_optimizer.cc b/back_end/isam_optimizer.cc
index b2251ac..1a8784c 100644
--- a/back_end/isam_optimizer.cc
+++ b/back_end/isam_optimizer.cc
@@ -186,7 +186,9 @@ double IsamOptimizer::AnalyseAllFramePoseForMaxRotation() {
   const Eigen::Vector3d v0 = first_rotation * x_norm;
   for (const auto frame : frames) {
     const Eigen::Vector3d v_f = frame->GlobalRotation() * x_norm;
-    delta_rotations.push_back(std::fabs(std::acos(v0.dot(v_f))));
+    // the product of two unit vectors can be slightly larger than 1
+    delta_rotations.push_back(
+        std::fabs(std::acos(common::Clamp(v0.dot(v_f), -1., 1.))));
   }
   std::sort(delta_rotations.begin(), delta_rotations.end());
   // LOG(INFO) << delta_rotations.back();
-- 
2.43.0


From ee072f71cf09f964b37dd313dade589934c84f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:29 +0000
Subject: [PATCH 45/60] fix: Read recorded scans of any size without leaking

The buffer held 250000 points and was never freed, longer scans were cut.
A file removed after listing crashed the reader, and long directory names
did not fit into the file name.
---
 ros_node/kitti_reader.cc | 56 +++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/ros_node/kitti_reader.cc b/ros_node/kitti_reader.cc
index b5fdb15..fe09014 100644
--- a/ros_node/kitti_reader.cc
+++ b/ros_node/kitti_reader.cc
@@ -86,36 +86,23 @@ Of course this 'untwisting' only works for non-dynamic environments.
 
 namespace static_map {
 namespace {
-// File existing check should be done before calling this function. We will NOT
-// perform any check on this filename in this function.
-MapBuilder::PointCloudPtr ReadFromFile(const char *filename) {
-  // allocate 4 MB buffer (only ~130*4*4 KB are needed)
-  int32_t num = 1000000;
-  float *data = reinterpret_cast<float *>(malloc(num * sizeof(float)));
-
-  // pointers
-  float *px = data + 0;
-  float *py = data + 1;
-  float *pz = data + 2;
-  float *pr = data + 3;
+// Returns nullptr if the file can not be opened.
+MapBuilder::PointCloudPtr ReadFromFile(const std::string &filename) {
+  FILE *stream = fopen(filename.c_str(), "rb");
+  if (!stream) {
+    return nullptr;
+  }
 
-  // load point cloud
   MapBuilder::PointCloudPtr point_cloud(new MapBuilder::PointCloudType);
-  FILE *stream;
-  stream = fopen(filename, "rb");
-  num = fread(data, sizeof(float), num, stream) / 4;
-  point_cloud->reserve(num);
-  for (int32_t i = 0; i < num; i++) {
+  // x, y, z and the reflectance of one point
+  float data[4];
+  while (fread(data, sizeof(float), 4, stream) == 4) {
     pcl::PointXYZI point;
-    point.x = *px;
-    point.y = *py;
-    point.z = *pz;
-    point.intensity = (*pr) * 255;
+    point.x = data[0];
+    point.y = data[1];
+    point.z = data[2];
+    point.intensity = data[3] * 255;
     point_cloud->points.push_back(point);
-    px += 4;
-    py += 4;
-    pz += 4;
-    pr += 4;
   }
   fclose(stream);
   return point_cloud;
@@ -132,18 +119,17 @@ void KittiReader::SetPointCloudDataPath(const std::string &path) {
 }
 
 MapBuilder::PointCloudPtr KittiReader::ReadFromBin(const int index) {
-  char filename[256] = {0};
-  snprintf(filename, sizeof(filename), "%s/%010d.bin",
-           point_cloud_data_path_.c_str(), index);
-  if (!common::FileExist(filename)) {
-    return nullptr;
-  }
-  return ReadFromFile(filename);
+  char filename[32] = {0};
+  snprintf(filename, sizeof(filename), "/%010d.bin", index);
+  return ReadFromFile(point_cloud_data_path_ + filename);
 }
 
 MapBuilder::PointCloudPtr KittiReader::ReadNext() {
-  if (current_index_ < files_.size()) {
-    return ReadFromFile(files_.at(current_index_++).c_str());
+  while (current_index_ < files_.size()) {
+    auto point_cloud = ReadFromFile(files_.at(current_index_++));
+    if (point_cloud) {
+      return point_cloud;
+    }
   }
   return nullptr;
 }
-- 
2.43.0


From c5d4d65708c0c854457b04562ece83527b4c2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:24:29 +0000
Subject: [PATCH 46/60] fix: Keep the child frame of odometry messages

---
 ros_node/msg_conversion.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_node/msg_conversion.cc b/ros_node/msg_conversion.cc
index a6c08ab..afd6017 100644
--- a/ros_node/msg_conversion.cc
+++ b/ros_node/msg_conversion.cc
@@ -73,6 +73,7 @@ static_map::data::ImuMsg ToLocalImu(const sensor_msgs::Imu& msg) {
 static_map::data::OdomMsg ToLocalOdom(const nav_msgs::Odometry& msg) {
   static_map::data::OdomMsg local_odom;
   local_odom.header = ToLocalHeader(msg.header);
+  local_odom.child_frame_id = msg.child_frame_id;
 
   local_odom.pose.pose.position.x() = msg.pose.pose.position.x;
   local_odom.pose.pose.position.y() = msg.pose.pose.position.y;
-- 
2.43.0


From b8bcd0e53d91e3e340a6cd8f097a80702ab2619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:56 +0000
Subject: [PATCH 47/60] fix: Let the default configuration start

The default enables the imu, but with a frequency that is refused.  Without
a usable configuration file the program aborted instead of using its
default.
---
 builder/map_builder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/map_builder.h b/builder/map_builder.h
index 0977d4c..6ec6b51 100644
--- a/builder/map_builder.h
+++ b/builder/map_builder.h
@@ -72,7 +72,7 @@ struct Options {
   struct {
     bool enabled = true;
     data::ImuType type = data::ImuType::kNormalImu;
-    float frequency = 0.f;
+    float frequency = 100.f;
     float gravity_constant = 9.8f;
   } imu_options;
 
-- 
2.43.0


From 871d8b5496cfee00b8506d4c2f486b9beb26b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:30:50 +0000
Subject: [PATCH 48/60] fix: Never turn an empty output path into the root
 directory

The last character of an empty string was read, and the path became "/".
---
 builder/map_builder_options.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/map_builder_options.cc b/builder/map_builder_options.cc
index f3ebe7d..2a44447 100644
--- a/builder/map_builder_options.cc
+++ b/builder/map_builder_options.cc
@@ -112,6 +112,9 @@ MapBuilderOptions& MapBuilder::Initialise(const char* config_file_name) {
   using std::string;
   GET_SINGLE_OPTION(static_map_node, "whole_options", "export_file_path",
                     whole_options.export_file_path, string, string);
+  if (whole_options.export_file_path.empty()) {
+    whole_options.export_file_path = "./";
+  }
   CHECK(common::CreateDir(whole_options.export_file_path)) << strerror(errno);
   if (whole_options.export_file_path.back() != '/') {
     whole_options.export_file_path += "/";
@@ -119,6 +122,9 @@ MapBuilderOptions& MapBuilder::Initialise(const char* config_file_name) {
 
   GET_SINGLE_OPTION(static_map_node, "whole_options", "map_package_path",
                     whole_options.map_package_path, string, string);
+  if (whole_options.map_package_path.empty()) {
+    whole_options.map_package_path = "./";
+  }
   CHECK(common::CreateDir(whole_options.map_package_path)) << strerror(errno);
   if (whole_options.map_package_path.back() != '/') {
     whole_options.map_package_path += "/";
-- 
2.43.0


From 9635b28772de545758feeecc92f6a7a86d341677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:57:36 +0000
Subject: [PATCH 49/60] fix: match the clouds still in pre-processing before
 the session ends

---
 builder/data/data_collector.cc | 7 ++++++-
 builder/data/data_collector.h  | 4 ++++
 builder/map_builder.cc         | 4 +++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 1123afc..ea8f392 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -133,6 +133,7 @@ void DataCollector::CloudPreProcessing() {
       if (!cloud_data_before_preprocessing_.empty()) {
         data = cloud_data_before_preprocessing_.front();
         cloud_data_before_preprocessing_.pop_front();
+        preprocessing_cloud_ = true;
       }
     }
     if (!data) {
@@ -146,6 +147,8 @@ void DataCollector::CloudPreProcessing() {
     filter_factory_->Filter(filtered_cloud);
     if (filtered_cloud->points.empty()) {
       PRINT_WARNING("skip a cloud without any point left.");
+      Locker locker(mutex_[kPointCloudData]);
+      preprocessing_cloud_ = false;
       continue;
     }
     CHECK(data->stamp == filtered_cloud->stamp);
@@ -154,6 +157,7 @@ void DataCollector::CloudPreProcessing() {
     Locker locker(mutex_[kPointCloudData]);
     // TODO(edward) these clouds can be cached to disk as well.
     cloud_data_.push_back(filtered_cloud);
+    preprocessing_cloud_ = false;
 
     // just for debug
     got_clouds_count_++;
@@ -178,7 +182,8 @@ InnerCloudType::Ptr DataCollector::GetNewCloud() {
 
 size_t DataCollector::GetRemainingCloudSize() {
   Locker locker(mutex_[kPointCloudData]);
-  return cloud_data_.size();
+  return cloud_data_.size() + cloud_data_before_preprocessing_.size() +
+         (preprocessing_cloud_ ? 1 : 0);
 }
 
 void DataCollector::AddSensorData(const OdomMsg& odom_msg) {
diff --git a/builder/data/data_collector.h b/builder/data/data_collector.h
index e4b433c..9df949c 100644
--- a/builder/data/data_collector.h
+++ b/builder/data/data_collector.h
@@ -119,6 +119,8 @@ class DataCollector {
   /// @brief output odom path to .pcd file for review
   void RawOdomDataToFile(const std::string& filename) const;
 
+  /// @brief count of the clouds not got yet, including the clouds which are
+  /// still waiting for or in pre-processing
   size_t GetRemainingCloudSize();
   void ClearAllCloud();
 
@@ -136,6 +138,8 @@ class DataCollector {
 
   std::deque<InnerCloudType::Ptr> cloud_data_;
   std::deque<InnerCloudType::Ptr> cloud_data_before_preprocessing_;
+  // a cloud has left the deque above but has not reached cloud_data_ yet
+  bool preprocessing_cloud_ = false;
 
   std::atomic_bool kill_cloud_preprocessing_thread_;
   std::thread cloud_processing_thread_;
diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 513bfea..b4dc08e 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -269,7 +269,9 @@ void MapBuilder::ScanMatchProcessing() {
   while (true) {
     auto new_inner_cloud = data_collector_->GetNewCloud();
     if (new_inner_cloud == nullptr) {
-      if (end_all_thread_.load()) {
+      // Some clouds may still be in pre-processing.
+      if (end_all_thread_.load() &&
+          data_collector_->GetRemainingCloudSize() == 0) {
         break;
       }
       SimpleTime::FromSec(0.005).Sleep();
-- 
2.43.0


From 0efc0406bfab64390ecbcfd043a34b324b755ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:57:36 +0000
Subject: [PATCH 50/60] fix: use only completely added frames for submaps and
 do not miss the last ones

---
 builder/map_builder.cc | 7 +++++--
 builder/map_builder.h  | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index b4dc08e..232053f 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -226,6 +226,7 @@ void MapBuilder::InsertFrameForSubmap(InnerCloud::Ptr cloud_ptr,
   frame->SetTimeStamp(cloud_ptr->GetTime());
   frame->SetGlobalPose(global_pose);
   frames_.push_back(frame);
+  frames_count_++;
 }
 
 namespace {
@@ -661,9 +662,11 @@ void MapBuilder::SubmapProcessing() {
   submap_match_thread_pool.enqueue([&]() { ConnectAllSubmap(); });
 
   while (true) {
-    const int frames_size = frames_.size();
+    // Check the thread first, or its last frames could be missed.
+    const bool all_frames_added = !scan_match_thread_running_.load();
+    const int frames_size = frames_count_.load();
     if (frames_size - current_index < submap_frame_count) {
-      if (!scan_match_thread_running_.load()) {
+      if (all_frames_added) {
         PRINT_INFO("no enough frames for new submap, quit");
         break;
       }
diff --git a/builder/map_builder.h b/builder/map_builder.h
index 6ec6b51..a1f10a7 100644
--- a/builder/map_builder.h
+++ b/builder/map_builder.h
@@ -256,6 +256,8 @@ class MapBuilder {
   std::shared_ptr<registrator::Interface> scan_matcher_ = nullptr;
   std::unique_ptr<std::thread> scan_match_thread_;
   tbb::concurrent_vector<std::shared_ptr<Frame>> frames_;
+  // frames_.size() already counts the frame which is still being added
+  std::atomic<size_t> frames_count_{0};
   std::atomic<bool> scan_match_thread_running_;
   bool got_first_point_cloud_ = false;
 
-- 
2.43.0


From 51e056e81cc53d7553c78aceeeb5fd6574742d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:57:36 +0000
Subject: [PATCH 51/60] fix: connect the submaps added right before the end of
 submap processing

---
 builder/map_builder.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 232053f..dfabffb 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -455,9 +455,11 @@ void MapBuilder::ConnectAllSubmap() {
   submaps_to_connect.reserve(20);
   bool first_inserted = false;
   while (true) {
+    // Check the flag first, or the last submaps could be missed.
+    const bool all_submaps_added = submap_processing_done_.load();
     int submap_size = current_trajectory_->size();
     if (submap_size == 0 || submap_size - 1 == current_finished_index) {
-      if (submap_processing_done_.load()) {
+      if (all_submaps_added) {
         break;
       }
       SimpleTime::FromSec(0.1).Sleep();
-- 
2.43.0


From 131de76368d9b92fe2c08b6e9f05233ed5487c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:57:52 +0000
Subject: [PATCH 52/60] fix: do not take a swapped-out cloud for an empty one
 in the matchers

---
 registrators/icp_pointmatcher.cc | 10 ++++++----
 registrators/interface.cc        |  8 ++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/registrators/icp_pointmatcher.cc b/registrators/icp_pointmatcher.cc
index cd91806..4270793 100644
--- a/registrators/icp_pointmatcher.cc
+++ b/registrators/icp_pointmatcher.cc
@@ -82,21 +82,23 @@ IcpUsingPointMatcher::~IcpUsingPointMatcher() {
 }
 
 void IcpUsingPointMatcher::SetInputSource(InnerCloudPtr cloud) {
-  if (!cloud || cloud->Empty()) {
+  // The cloud may have been swapped out, so do not use Empty() here.
+  const auto inner_cloud = cloud ? cloud->GetInnerCloud() : nullptr;
+  if (!inner_cloud || inner_cloud->points.empty()) {
     PRINT_ERROR("Empty cloud.");
     return;
   }
-  const auto inner_cloud = cloud->GetInnerCloud();
   *(inner_->reading_cloud_) = InnerCloudToPmPoints(inner_cloud);
   CHECK(inner_->reading_cloud_->getNbPoints() == inner_cloud->points.size());
 }
 
 void IcpUsingPointMatcher::SetInputTarget(InnerCloudPtr cloud) {
-  if (!cloud || cloud->Empty()) {
+  // The cloud may have been swapped out, so do not use Empty() here.
+  const auto inner_cloud = cloud ? cloud->GetInnerCloud() : nullptr;
+  if (!inner_cloud || inner_cloud->points.empty()) {
     PRINT_ERROR("Empty cloud.");
     return;
   }
-  const auto inner_cloud = cloud->GetInnerCloud();
   *(inner_->reference_cloud_) = InnerCloudToPmPoints(inner_cloud);
   CHECK(inner_->reference_cloud_->getNbPoints() == inner_cloud->points.size());
 }
diff --git a/registrators/interface.cc b/registrators/interface.cc
index 8e1ddf0..7136af3 100644
--- a/registrators/interface.cc
+++ b/registrators/interface.cc
@@ -40,7 +40,9 @@ void Interface::SetInputSource(Interface::InnerCloudPtr source_cloud) {
     source_cloud_ = nullptr;
     return;
   }
-  if (source_cloud->Empty()) {
+  // The cloud may have been swapped out, so do not use Empty() here.
+  const auto inner_cloud = source_cloud->GetInnerCloud();
+  if (!inner_cloud || inner_cloud->points.empty()) {
     PRINT_WARNING("cloud is empty.");
     return;
   }
@@ -52,7 +54,9 @@ void Interface::SetInputTarget(Interface::InnerCloudPtr target_cloud) {
     target_cloud_ = nullptr;
     return;
   }
-  if (target_cloud->Empty()) {
+  // The cloud may have been swapped out, so do not use Empty() here.
+  const auto inner_cloud = target_cloud->GetInnerCloud();
+  if (!inner_cloud || inner_cloud->points.empty()) {
     PRINT_WARNING("cloud is empty.");
     return;
   }
-- 
2.43.0


From 2ceea56d39b5975ed75cbf4983d69e1cea9196d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:57:52 +0000
Subject: [PATCH 53/60] fix: start a session with identity transforms and
 without odometry

---
 builder/map_builder.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index dfabffb..0143d6a 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -51,7 +51,14 @@ constexpr double kLocalMapRange = 30.;           // m
 }  // namespace
 
 MapBuilder::MapBuilder()
-    : use_imu_(false),
+    : transform_odom_lidar_(Eigen::Matrix4d::Identity()),
+      transform_imu_lidar_(Eigen::Matrix4d::Identity()),
+      tracking_to_imu_(Eigen::Matrix4d::Identity()),
+      tracking_to_odom_(Eigen::Matrix4d::Identity()),
+      tracking_to_lidar_(Eigen::Matrix4d::Identity()),
+      tracking_to_gps_(Eigen::Matrix4d::Identity()),
+      use_imu_(false),
+      use_odom_(false),
       use_gps_(false),
       end_all_thread_(false),
       submap_processing_done_(false),
-- 
2.43.0


From 67d4d0e17293d7b5ab99c88d7991d4c3811eab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:15:52 +0000
Subject: [PATCH 54/60] fix: keep the motion compensation factor of points in
 the voxel grid filter

---
 pre_processors/filter_voxel_grid.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pre_processors/filter_voxel_grid.cc b/pre_processors/filter_voxel_grid.cc
index 3831b74..6a91d31 100644
--- a/pre_processors/filter_voxel_grid.cc
+++ b/pre_processors/filter_voxel_grid.cc
@@ -56,11 +56,13 @@ void VoxelGrid::Filter(const data::InnerCloudType::Ptr& cloud) {
     CHECK(!points.empty());
 
     double sum[4] = {0, 0, 0, 0};
+    double factor_sum = 0.;
     for (const auto& point : points) {
       sum[0] += point.x;
       sum[1] += point.y;
       sum[2] += point.z;
       sum[3] += point.intensity;
+      factor_sum += point.factor;
     }
 
     const int size = points.size();
@@ -69,6 +71,7 @@ void VoxelGrid::Filter(const data::InnerCloudType::Ptr& cloud) {
     result.y = sum[1] / size;
     result.z = sum[2] / size;
     result.intensity = sum[3] / size;
+    result.factor = factor_sum / size;
     return result;
   };
 
-- 
2.43.0


From 32d8e26a59d1b6e4aaf002c2297bd875e309f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:37 +0000
Subject: [PATCH 55/60] fix: skip late imu data instead of aborting the session

---
 builder/pose_extrapolator.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index 6237827..ffbd11f 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -123,8 +123,11 @@ void PoseExtrapolator::AddImuData(const data::ImuMsg& imu_data) {
     return;
   }
   common::MutexLocker locker(&mutex_);
-  CHECK(timed_pose_queue_.empty() ||
-        imu_data.header.stamp >= timed_pose_queue_.back().time);
+  if (!timed_pose_queue_.empty() &&
+      imu_data.header.stamp < timed_pose_queue_.back().time) {
+    PRINT_WARNING("skip imu data older than the last pose.");
+    return;
+  }
   imu_data_.push_back(imu_data);
   TrimImuData();
 }
-- 
2.43.0


From 1d35b3f2dad60b82338223a8f6c8074c5392e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:18:22 +0000
Subject: [PATCH 56/60] fix: Report an unreadable input in the las converter

---
 tools/pcd_to_las.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/pcd_to_las.cc b/tools/pcd_to_las.cc
index c1aba5b..bba2fc5 100644
--- a/tools/pcd_to_las.cc
+++ b/tools/pcd_to_las.cc
@@ -45,7 +45,15 @@ int main(int argc, char** argv) {
   }
 
   pcl::PCLPointCloud2 cloud;
-  pcl::io::loadPCDFile(input_pcdfile, cloud);
+  if (pcl::io::loadPCDFile(input_pcdfile, cloud) < 0) {
+    std::cerr << "Can not read " << input_pcdfile << std::endl;
+    return -1;
+  }
+  // a file without a valid header is read as an empty cloud
+  if (cloud.height * cloud.width == 0) {
+    std::cerr << "There is no point in " << input_pcdfile << std::endl;
+    return -1;
+  }
 
   liblas::Header header;
   header.SetScale(0.01, 0.01, 0.01);
-- 
2.43.0


From 8df8fed05455f637b02149b8d758ed39386454e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:45:50 +0000
Subject: [PATCH 57/60] fix: Write black for the returns beyond the range in
 range pictures

The pixels were skipped, so they showed the row above or whatever was in
the new buffer.
---
 pre_processors/filter_range_image.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pre_processors/filter_range_image.cc b/pre_processors/filter_range_image.cc
index 5e0cb23..18ec094 100644
--- a/pre_processors/filter_range_image.cc
+++ b/pre_processors/filter_range_image.cc
@@ -215,6 +215,9 @@ void RangeImage::ToPng(const float &max_range, const char *filename,
   for (png_uint_32 y = 0; y < height; ++y) {
     for (png_uint_32 x = 0; x < width; ++x) {
       if (matrix_image_(y, x) > max_range) {
+        row[x * 3] = 0;
+        row[x * 3 + 1] = 0;
+        row[x * 3 + 2] = 0;
         continue;
       }
       if (colorful) {
-- 
2.43.0


From 42edf074954ad432b32a9591d4d191ac786d35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:45:50 +0000
Subject: [PATCH 58/60] fix: Free the row buffer and the info struct after
 writing a range picture

---
 pre_processors/filter_range_image.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pre_processors/filter_range_image.cc b/pre_processors/filter_range_image.cc
index 18ec094..0f5d5fa 100644
--- a/pre_processors/filter_range_image.cc
+++ b/pre_processors/filter_range_image.cc
@@ -195,12 +195,14 @@ void RangeImage::ToPng(const float &max_range, const char *filename,
       png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, NULL, NULL);
   if (!png_ptr) {
     LOG(ERROR) << "Could not allocate write struct" << std::endl;
+    fclose(fp);
     return;
   }
   png_infop info_ptr = png_create_info_struct(png_ptr);
   if (!info_ptr) {
     LOG(ERROR) << "Could not allocate info struct" << std::endl;
     png_destroy_write_struct(&png_ptr, (png_infopp)NULL);
+    fclose(fp);
     return;
   }
 
@@ -241,16 +243,12 @@ void RangeImage::ToPng(const float &max_range, const char *filename,
     png_write_row(png_ptr, row);
   }
   png_write_end(png_ptr, NULL);
+  free(row);
 
   if (fp != NULL) {
     fclose(fp);
   }
-  if (info_ptr != NULL) {
-    png_free_data(png_ptr, info_ptr, PNG_FREE_ALL, -1);
-  }
-  if (png_ptr != NULL) {
-    png_destroy_write_struct(&png_ptr, (png_infopp)NULL);
-  }
+  png_destroy_write_struct(&png_ptr, &info_ptr);
 }
 
 void RangeImage::LabelOneComponent(LabelT label, Index index) {
-- 
2.43.0


From f1475e1059ae465dfcc81c0fb035c1a43cee9679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:10 +0000
Subject: [PATCH 59/60] fix: Do not crash the profiler for a user without an
 account entry

---
 common/performance/process_info.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/performance/process_info.cc b/common/performance/process_info.cc
index 6a9efe5..f09112e 100644
--- a/common/performance/process_info.cc
+++ b/common/performance/process_info.cc
@@ -178,7 +178,8 @@ void ProcessProfiler::Run() {
   char formated_time[80] = {0};
   strftime(formated_time, 80, "%F.%T", localtime(&current_time));
   // log file dir (in home dir of this user)
-  std::string user_home_dir = std::string(getpwuid(getuid())->pw_dir);
+  const struct passwd* user = getpwuid(getuid());
+  std::string user_home_dir = user ? std::string(user->pw_dir) : ".";
   std::string dir = user_home_dir + "/";
 #ifdef _PROF_LOG_DIR_
   dir += std::string(_PROF_LOG_DIR_);
-- 
2.43.0


From 026356a795a87228bb64a19b7196742b705b52f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:10 +0000
Subject: [PATCH 60/60] fix: Read the processor times of processes with spaces
 in their name

---
 common/performance/process_info.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/performance/process_info.cc b/common/performance/process_info.cc
index f09112e..c261d6f 100644
--- a/common/performance/process_info.cc
+++ b/common/performance/process_info.cc
@@ -113,7 +113,10 @@ uint64_t ProcessProfiler::GetCpuProcOccpy(unsigned int pid) {
 
   if (fgets(line_buff, sizeof(line_buff), fd)) {
     sscanf(line_buff, "%u", &t.pid);
-    const char* q = GetItems(line_buff, kProcessItem);
+    // The name of the process (2nd item, in parentheses) may contain spaces.
+    const char* name_end = strrchr(line_buff, ')');
+    const char* q = name_end ? GetItems(name_end, kProcessItem - 1)
+                             : GetItems(line_buff, kProcessItem);
     sscanf(q, "%ld %ld %ld %ld", &t.utime, &t.stime, &t.cutime, &t.cstime);
   }
   fclose(fd);
-- 
2.43.0

