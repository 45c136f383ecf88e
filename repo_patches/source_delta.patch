From 1cc58b1b8a5f1d48524c35ba96e06873230a7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 01/26] fix: define the destructor of KalmanFilter

It was declared but never defined, so no program could create a KalmanFilter.
---
 kalman_filter/include/kalman_filter/kalman_filter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalman_filter/include/kalman_filter/kalman_filter.hpp b/kalman_filter/include/kalman_filter/kalman_filter.hpp
index d65d388..97a46d1 100644
--- a/kalman_filter/include/kalman_filter/kalman_filter.hpp
+++ b/kalman_filter/include/kalman_filter/kalman_filter.hpp
@@ -88,7 +88,7 @@ public:
   /**
    * @brief destructor
    */
-  ~KalmanFilter();
+  ~KalmanFilter() = default;
 
   /**
    * @brief initialization of kalman filter
-- 
2.43.0


From 8df7b70176bbb8a8d1573c0919b0ecd4f9bbf2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 02/26] fix: compute block boundaries in integers

Rounding of the interpolation in floating point made block sizes differ by
more than one.
---
 extraction/src/index_range.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/extraction/src/index_range.cpp b/extraction/src/index_range.cpp
index 44187f8..bfe9938 100644
--- a/extraction/src/index_range.cpp
+++ b/extraction/src/index_range.cpp
@@ -27,6 +27,8 @@
 // POSSIBILITY OF SUCH DAMAGE.
 
 
+#include <cstdint>
+
 #include "lidar_feature_extraction/index_range.hpp"
 
 IndexRange::IndexRange(const int start_index, const int end_index, const int n_blocks)
@@ -59,10 +61,8 @@ int IndexRange::End(const int j) const
 
 int IndexRange::Boundary(const int j) const
 {
-  const double s = static_cast<double>(start_index_);
-  const double e = static_cast<double>(end_index_);
-  const double n = static_cast<double>(n_blocks_);
-  return static_cast<int>(s * (1. - j / n) + e * j / n);
+  const std::int64_t size = static_cast<std::int64_t>(end_index_) - start_index_;
+  return static_cast<int>(start_index_ + size * j / n_blocks_);
 }
 
 void IndexRange::ThrowExceptionIfOutOfRange(const int j) const
-- 
2.43.0


From 9b524f4e66bbf18351fe2ad6553513fcc5af5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 03/26] fix: honour the begin index in Range::operator()(begin,
 end)

---
 extraction/include/lidar_feature_extraction/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/include/lidar_feature_extraction/range.hpp b/extraction/include/lidar_feature_extraction/range.hpp
index 6474fdc..015b657 100644
--- a/extraction/include/lidar_feature_extraction/range.hpp
+++ b/extraction/include/lidar_feature_extraction/range.hpp
@@ -59,7 +59,7 @@ public:
   {
     std::vector<double> ranges(end - begin);
     for (unsigned int i = 0; i < ranges.size(); i++) {
-      ranges.at(i) = (*this)(i);
+      ranges.at(i) = (*this)(begin + i);
     }
     return ranges;
   }
-- 
2.43.0


From 3f2a095815491d5bcaf8bb4bc91ec67ed4e3e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 04/26] fix: keep the cosine of parallel vectors within [-1, 1]
 in CalcRadian

---
 extraction/src/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extraction/src/math.cpp b/extraction/src/math.cpp
index d12c786..6bdbc83 100644
--- a/extraction/src/math.cpp
+++ b/extraction/src/math.cpp
@@ -26,6 +26,7 @@
 // ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 // POSSIBILITY OF SUCH DAMAGE.
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "lidar_feature_extraction/math.hpp"
@@ -42,5 +43,6 @@ double CalcRadian(const double x1, const double y1, const double x2, const doubl
   }
 
   const double cos_angle = dot / (norm1 * norm2);
-  return std::acos(cos_angle);
+  // rounding can push the cosine of (anti-)parallel vectors out of [-1, 1]
+  return std::acos(std::clamp(cos_angle, -1., 1.));
 }
-- 
2.43.0


From b47d399cea0cd050484a62b756b77649cf3758c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 05/26] fix: order points on the positive x axis consistently
 by azimuth

Of two points on the positive x axis each compared smaller than the other,
which is not a strict weak order and undefined behaviour in std::sort.
---
 extraction/include/lidar_feature_extraction/ring.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/include/lidar_feature_extraction/ring.hpp b/extraction/include/lidar_feature_extraction/ring.hpp
index bac6aa2..b18775e 100644
--- a/extraction/include/lidar_feature_extraction/ring.hpp
+++ b/extraction/include/lidar_feature_extraction/ring.hpp
@@ -81,7 +81,7 @@ struct AHasSmallerPolarAngleThanB
     }
 
     if (a.y == 0) {
-      return (a.x >= 0) && (b.y >= 0);
+      return (a.x >= 0) && ((b.y > 0) || (b.y == 0 && b.x < 0));
     }
 
     if (b.y == 0) {
-- 
2.43.0


From f4ada74ff53ec6e3f5a393574a9b2e7139c0f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 06/26] fix: map the minimum of the interval to the first
 colour in ValueToColor

---
 extraction/src/color_points.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/src/color_points.cpp b/extraction/src/color_points.cpp
index 73c5dbe..e34d682 100644
--- a/extraction/src/color_points.cpp
+++ b/extraction/src/color_points.cpp
@@ -70,6 +70,6 @@ std::vector<uint8_t> LabelToColor(const PointLabel & label)
 std::vector<uint8_t> ValueToColor(const double value, const double min, const double max)
 {
   const double v = std::clamp(value, min, max);
-  const uint8_t c = static_cast<uint8_t>(255. * v / (max - min));
+  const uint8_t c = static_cast<uint8_t>(255. * ((v - min) / (max - min)));
   return std::vector<uint8_t>{c, c, c};
 }
-- 
2.43.0


From 9f3d7f3c7be702f352508e9c7591cd9fe11d1485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 07/26] fix: linearise the optimiser at the quaternion the
 jacobians use

---
 .../include/lidar_feature_localization/optimizer.hpp        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/localization/include/lidar_feature_localization/optimizer.hpp b/localization/include/lidar_feature_localization/optimizer.hpp
index d6efc57..9e77443 100644
--- a/localization/include/lidar_feature_localization/optimizer.hpp
+++ b/localization/include/lidar_feature_localization/optimizer.hpp
@@ -110,7 +110,11 @@ public:
       prev_scale = scale;
 
       const Eigen::VectorXd weights = ComputeWeights(normalized);
-      const auto [dq, dt] = CalcUpdate(q, weights, jacobians, residuals);
+
+      // The jacobians are derivatives at the quaternion computed from the pose.
+      // It represents the same rotation as q but its sign may be opposite
+      const Eigen::Quaterniond pose_q(pose.rotation());
+      const auto [dq, dt] = CalcUpdate(pose_q, weights, jacobians, residuals);
 
       q = q * dq;
       t = t + dt;
-- 
2.43.0


From 06fea7933bcfe35c52c8926ff22efacb346cad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 08/26] fix: return only the neighbours found by the nearest
 neighbour search

---
 localization/src/kdtree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/localization/src/kdtree.cpp b/localization/src/kdtree.cpp
index ff77c76..f88a423 100644
--- a/localization/src/kdtree.cpp
+++ b/localization/src/kdtree.cpp
@@ -55,8 +55,9 @@ std::tuple<Eigen::MatrixXd, std::vector<double>> KDTreeEigen::NearestKSearch(
   kdtree_->index->findNeighbors(result, &queryvec[0], nanoflann::SearchParams(10));
   // kdtree_->query(&query[0], n_neighbors, &indices[0], &distances[0]);
 
-  indices.resize(n_neighbors);
-  distances.resize(n_neighbors);
+  // There are fewer neighbors than requested if the map is small
+  indices.resize(result.size());
+  distances.resize(result.size());
 
   const Eigen::MatrixXd X = GetRows(map_, indices);
   return std::make_tuple(X, distances);
-- 
2.43.0


From bfdd8c126fc7d26d83ab5a8518f442211e292bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:05 +0000
Subject: [PATCH 09/26] fix: fit surface planes independently of the origin of
 the map

---
 .../lidar_feature_localization/surface.hpp    | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/localization/include/lidar_feature_localization/surface.hpp b/localization/include/lidar_feature_localization/surface.hpp
index afb61ca..2e7a3f2 100644
--- a/localization/include/lidar_feature_localization/surface.hpp
+++ b/localization/include/lidar_feature_localization/surface.hpp
@@ -30,6 +30,8 @@
 #ifndef LIDAR_FEATURE_LOCALIZATION__SURFACE_HPP_
 #define LIDAR_FEATURE_LOCALIZATION__SURFACE_HPP_
 
+#include <Eigen/Eigenvalues>
+
 #include <memory>
 #include <tuple>
 #include <vector>
@@ -38,6 +40,7 @@
 #include "lidar_feature_library/eigen.hpp"
 #include "lidar_feature_library/pcl_utils.hpp"
 
+#include "lidar_feature_localization/edge.hpp"
 #include "lidar_feature_localization/filter.hpp"
 #include "lidar_feature_localization/jacobian.hpp"
 #include "lidar_feature_localization/kdtree.hpp"
@@ -82,6 +85,16 @@ Eigen::VectorXd EstimatePlaneCoefficients(const Eigen::MatrixXd & X)
   return SolveLinear(X, g);
 }
 
+// The plane may contain the origin, unlike those represented by EstimatePlaneCoefficients
+std::tuple<Eigen::Vector3d, Eigen::Vector3d> EstimatePlane(const Eigen::MatrixXd & X)
+{
+  const auto [mean, covariance] = CalcMeanAndCovariance(X);
+  const Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> solver(covariance);
+  const Eigen::Vector3d normal = solver.eigenvectors().col(0);
+  // The origin is in the positive side as in SignedPointPlaneDistance
+  return std::make_tuple(mean, normal.dot(mean) > 0. ? Eigen::Vector3d(-normal) : normal);
+}
+
 Eigen::Matrix<double, 1, 7> MakeJacobianRow(
   const Eigen::Vector3d & w,
   const Eigen::Quaterniond & q,
@@ -129,10 +142,10 @@ private:
 
       const auto [X, squared_distances] = kdtree_->NearestKSearch(point_on_map, n_neighbors_);
 
-      const Eigen::Vector3d w = EstimatePlaneCoefficients(X);
+      const auto [mean, normal] = EstimatePlane(X);
 
-      jacobians[i] = MakeJacobianRow(w, q, p);
-      residuals[i] = SignedPointPlaneDistanceVector1d(w, point_on_map);
+      jacobians[i] = MakeJacobianRow(normal, q, p);
+      residuals[i] = Eigen::VectorXd::Constant(1, normal.dot(point_on_map - mean));
     }
 
     return std::make_tuple(jacobians, residuals);
-- 
2.43.0


From 1cf77ae3d66e64b1286083747d120229afd8330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:57 +0000
Subject: [PATCH 10/26] fix: saturate the delay step instead of overflowing int

---
 ekf_localizer/include/ekf_localizer/delay.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ekf_localizer/include/ekf_localizer/delay.hpp b/ekf_localizer/include/ekf_localizer/delay.hpp
index e01d921..e9969d0 100644
--- a/ekf_localizer/include/ekf_localizer/delay.hpp
+++ b/ekf_localizer/include/ekf_localizer/delay.hpp
@@ -15,7 +15,8 @@
 #ifndef EKF_LOCALIZER__DELAY_HPP_
 #define EKF_LOCALIZER__DELAY_HPP_
 
-#include <algorithm>
+#include <cmath>
+#include <limits>
 
 
 inline double ComputeDelayTime(
@@ -27,7 +28,13 @@ inline double ComputeDelayTime(
 
 inline int ComputeDelayStep(const double delay_time, const double dt)
 {
-  return std::roundf(std::max(delay_time, 0.) / dt);
+  if (delay_time <= 0.) {
+    return 0;
+  }
+  // dt can be zero, and the step may not fit in int
+  const double step = std::round(delay_time / dt);
+  const int max_step = std::numeric_limits<int>::max();
+  return step < max_step ? static_cast<int>(step) : max_step;
 }
 
 #endif  // EKF_LOCALIZER__DELAY_HPP_
-- 
2.43.0


From fc0f0acc5c59772b51e1c5f5abcf699861061d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:48 +0000
Subject: [PATCH 11/26] fix: accept an empty string in EraseBeginSlash

---
 ekf_localizer/src/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekf_localizer/src/string.cpp b/ekf_localizer/src/string.cpp
index be6884e..a033629 100644
--- a/ekf_localizer/src/string.cpp
+++ b/ekf_localizer/src/string.cpp
@@ -18,7 +18,7 @@
 std::string EraseBeginSlash(const std::string & s)
 {
   std::string a = s;
-  if (a.front() == '/') {
+  if (!a.empty() && a.front() == '/') {
     a.erase(0, 1);
   }
   return a;
-- 
2.43.0


From 6ffc1038a0d838e44c56359ad3a280ba554793f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 12/26] fix: do not use warning texts as format strings

---
 ekf_localizer/include/ekf_localizer/warning.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ekf_localizer/include/ekf_localizer/warning.hpp b/ekf_localizer/include/ekf_localizer/warning.hpp
index d0b02cc..0d50b8c 100644
--- a/ekf_localizer/include/ekf_localizer/warning.hpp
+++ b/ekf_localizer/include/ekf_localizer/warning.hpp
@@ -30,17 +30,17 @@ public:
 
   void Info(const std::string & message) const
   {
-    RCLCPP_INFO(node_->get_logger(), message.c_str());
+    RCLCPP_INFO(node_->get_logger(), "%s", message.c_str());
   }
 
   void Warn(const std::string & message) const
   {
-    RCLCPP_WARN(node_->get_logger(), message.c_str());
+    RCLCPP_WARN(node_->get_logger(), "%s", message.c_str());
   }
 
   void Error(const std::string & message) const
   {
-    RCLCPP_ERROR(node_->get_logger(), message.c_str());
+    RCLCPP_ERROR(node_->get_logger(), "%s", message.c_str());
   }
 
   void WarnThrottle(
@@ -50,7 +50,7 @@ public:
     RCLCPP_WARN_THROTTLE(
       node_->get_logger(), *(node_->get_clock()),
       std::chrono::milliseconds(duration_milliseconds).count(),
-      message.c_str());
+      "%s", message.c_str());
   }
 
 private:
-- 
2.43.0


From fa010510cc4478d3425aeb0b8130108ffd3b7cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:16 +0000
Subject: [PATCH 13/26] fix: take the yaw innovation of pose measurements the
 short way round

---
 ekf_localizer/src/pose_measurement.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index 7da742a..bd91080 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -91,13 +91,17 @@ void PoseMeasurement::Update(
       continue;
     }
 
-    const Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
+    Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
 
     if (!CheckMeasurementMatrixNanInf(warning_, y)) {
       continue;
     }
 
     const Eigen::Vector3d y_ekf = GetPoseState(ekf->getX(delay_step));
+
+    // Measure the yaw in the turn of the estimation so that their difference is the shortest one
+    y(2) = y_ekf(2) + normalizeYaw(y(2) - y_ekf(2));
+
     const Eigen::Matrix3d P_y = PoseCovariance(ekf->getLatestP());
 
     if (!CheckMahalanobisGate(warning_, gate_dist_, y_ekf, y, P_y)) {
-- 
2.43.0


From b686e66b4f3029f7fca57f12e57fa8cc900f4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:06 +0000
Subject: [PATCH 14/26] fix: fuse every pending measurement in a tick

---
 ekf_localizer/src/pose_measurement.cpp  | 3 ++-
 ekf_localizer/src/twist_measurement.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index bd91080..423988c 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -78,7 +78,8 @@ void PoseMeasurement::Update(
 {
   const Eigen::Matrix<double, 3, 6> C = PoseMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  const size_t n_messages = messages_.size();  // pop() shrinks the queue
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto pose = messages_.pop();
 
     CheckFrameId(warning_, pose->header.frame_id, frame_id_);
diff --git a/ekf_localizer/src/twist_measurement.cpp b/ekf_localizer/src/twist_measurement.cpp
index c6a60dc..61dcb45 100644
--- a/ekf_localizer/src/twist_measurement.cpp
+++ b/ekf_localizer/src/twist_measurement.cpp
@@ -74,7 +74,8 @@ void TwistMeasurement::Update(
 {
   const Eigen::Matrix<double, 2, 6> C = TwistMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  const size_t n_messages = messages_.size();  // pop() shrinks the queue
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto twist = messages_.pop();
 
     CheckFrameId(warning_, twist->header.frame_id, "base_link");
-- 
2.43.0


From 7a5db808480143da232ed1edafcadad873afb1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:50 +0000
Subject: [PATCH 15/26] fix: ignore an initial pose whose transform is not
 available

---
 ekf_localizer/src/ekf_localizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 6adb883..b1e0cf7 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -242,6 +242,7 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
       fmt::format(
         "TF transform failed. parent = {}, child = {}",
         params.pose_frame_id_, initialpose->header.frame_id));
+    return;
   }
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
-- 
2.43.0


From 9707b9f50202cfd3184d9d814930e703b85de184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:59 +0000
Subject: [PATCH 16/26] fix: rotate the position of an initial pose into the
 pose frame

---
 ekf_localizer/src/ekf_localizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index b1e0cf7..c3956bf 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -247,7 +247,8 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
   const Eigen::Vector3d translation = ToVector3d(maybe_transform->transform.translation);
-  const Eigen::Vector3d t = initial_position + translation;
+  const Eigen::Quaterniond rotation = ToQuaterniond(maybe_transform->transform.rotation);
+  const Eigen::Vector3d t = rotation * initial_position + translation;
   const double initial_yaw = tf2::getYaw(initialpose->pose.pose.orientation);
   const double yaw = tf2::getYaw(maybe_transform->transform.rotation);
 
-- 
2.43.0


From 3e4bccbe5f2cd9b3ae17545f12dd225a5e58f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:07 +0000
Subject: [PATCH 17/26] fix: restart the height, roll and pitch filters at an
 initial pose

---
 ekf_localizer/src/ekf_localizer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index c3956bf..5a1815f 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -256,7 +256,12 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
   const Matrix6d P = InitCovariance(initialpose->pose.covariance);
   ekf_.reset(new TimeDelayKalmanFilter(x, P, params.extend_state_step_));
 
-  updateSimple1DFilters(*initialpose);
+  const Eigen::Vector3d rpy = createRPYfromQuaternion(initialpose->pose.pose.orientation);
+  const Matrix6d covariance = GetEigenCovariance(initialpose->pose.covariance);
+  const rclcpp::Time stamp = initialpose->header.stamp;
+  z_filter_.init(t(2), std::sqrt(covariance(2, 2)), stamp);
+  roll_filter_.init(rpy(0), std::sqrt(covariance(3, 3)), stamp);
+  pitch_filter_.init(rpy(1), std::sqrt(covariance(4, 4)), stamp);
 
   pose_measurement_.Clear();
   twist_measurement_.Clear();
-- 
2.43.0


From 0648206308e624334e370ba4a27a658de2c97f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 18/26] fix: keep the height, roll and pitch filters finite

---
 ekf_localizer/include/ekf_localizer/ekf_localizer.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
index 6cf61a8..d1ac76a 100644
--- a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
+++ b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
@@ -21,6 +21,7 @@
 #include <tf2_ros/transform_listener.h>
 
 #include <chrono>
+#include <cmath>
 #include <iostream>
 #include <memory>
 #include <queue>
@@ -73,6 +74,10 @@ public:
   }
   void update(const double obs, const double obs_stddev, const rclcpp::Time time)
   {
+    if (!std::isfinite(obs) || !std::isfinite(obs_stddev)) {
+      return;
+    }
+
     if (!initialized_) {
       init(obs, obs_stddev, time);
       return;
@@ -84,7 +89,8 @@ public:
     stddev_ = std::sqrt(stddev_ * stddev_ + proc_stddev_x_d * proc_stddev_x_d);
 
     // Update step
-    double kalman_gain = stddev_ * stddev_ / (stddev_ * stddev_ + obs_stddev * obs_stddev);
+    const double variance = stddev_ * stddev_ + obs_stddev * obs_stddev;
+    double kalman_gain = variance > 0. ? stddev_ * stddev_ / variance : 0.;
     x_ = x_ + kalman_gain * (obs - x_);
     stddev_ = std::sqrt(1 - kalman_gain) * stddev_;
 
-- 
2.43.0


From 080ae31976daa302592ace0eb7eb042184c1e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:29 +0000
Subject: [PATCH 19/26] fix: let StampSortedObjects remove all of its entries

---
 .../stamp_sorted_objects.hpp                        | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
index 1c600a1..c6c7de9 100644
--- a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
+++ b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
@@ -90,18 +90,7 @@ public:
     // g is the first element in map that satisfies timestamp < g
     const auto g = objects_.upper_bound(timestamp);
 
-    if (g == objects_.end()) {
-      return;
-    }
-
-    const auto boundary = std::prev(g);
-
-    auto curr = std::prev(objects_.end());
-    while (curr != boundary) {
-      auto prev = std::prev(curr);
-      objects_.erase(curr);
-      curr = prev;
-    }
+    objects_.erase(g, objects_.end());
   }
 
 private:
-- 
2.43.0


From 1e3af086875c6e8f82f6e269824ad61d10099be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:13 +0000
Subject: [PATCH 20/26] fix: keep prior poses that are ahead of the current
 scan

RemoveOlderThan() drops the entries that are newer than its argument, so every
scan threw away the priors more than one second ahead of it, and a later scan
was started from a farther prior or from none at all.
---
 localization/include/lidar_feature_localization/subscriber.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/localization/include/lidar_feature_localization/subscriber.hpp b/localization/include/lidar_feature_localization/subscriber.hpp
index a658f86..dd1eddc 100644
--- a/localization/include/lidar_feature_localization/subscriber.hpp
+++ b/localization/include/lidar_feature_localization/subscriber.hpp
@@ -143,7 +143,6 @@ public:
 
     const double msg_stamp_nanosec = Nanoseconds(edge_msg->header.stamp);
     const auto [prior_stamp_nanosec, prior] = prior_poses_.GetClosest(msg_stamp_nanosec);
-    prior_poses_.RemoveOlderThan(msg_stamp_nanosec + 1e9);  // 1e9 msg_stamp_nanosec = 1s
 
     RCLCPP_INFO(
       this->get_logger(),
-- 
2.43.0


From cca28927b52a76becd74fb6a3fef80dc713a9fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:10 +0000
Subject: [PATCH 21/26] fix: do not broadcast a NaN transform for an empty map

---
 map_tf_generator/src/map_tf_generator_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map_tf_generator/src/map_tf_generator_node.cpp b/map_tf_generator/src/map_tf_generator_node.cpp
index 0c140da..ad53765 100644
--- a/map_tf_generator/src/map_tf_generator_node.cpp
+++ b/map_tf_generator/src/map_tf_generator_node.cpp
@@ -57,6 +57,10 @@ private:
     pcl::fromROSMsg<pcl::PointXYZ>(*clouds_ros, clouds);
 
     const unsigned int sum = clouds.points.size();
+    if (sum == 0) {
+      RCLCPP_WARN_STREAM(get_logger(), "received an empty map. No static tf is broadcast");
+      return;
+    }
     double coordinate[3] = {0, 0, 0};
     for (unsigned int i = 0; i < sum; i++) {
       coordinate[0] += clouds.points[i].x;
-- 
2.43.0


From e1f60c81f48ce1a8a0c7da3cb5fa60ed676eb38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 22/26] fix: write each converted field in its own place

The values were taken in the order of the input fields, so a cloud whose ring
comes before its intensity got the two exchanged.
---
 point_type_converter/point_type_converter/convert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index 209b473..17b688b 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -121,13 +121,13 @@ def split(collection, chunk_size):
     return tuple(collection[i:i+m] for i in range(0, n, m))
 
 
-def find_indices(fields, retained_names):
-    return [i for i in range(len(fields)) if fields[i].name in retained_names]
+def find_indices(fields, names):
+    index = {f.name: i for i, f in enumerate(fields)}
+    return [index[name] for name in names]
 
 
 def filter_point_data(point_tuples, input_fields, output_fields):
-    output_names = {f.name for f in output_fields}
-    indices = find_indices(input_fields, output_names)
+    indices = find_indices(input_fields, [f.name for f in output_fields])
     return tuple(tuple(chunk[i] for i in indices) for chunk in point_tuples)
 
 
-- 
2.43.0


From 7b8b79e5698c4c7d865128688530ff44987a740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 23/26] fix: drop converted points at the origin by their
 coordinates

The first three input fields were taken for the coordinates, whatever they are.
---
 point_type_converter/point_type_converter/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index 17b688b..6a2da36 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -189,8 +189,8 @@ class PointTypeConverter(Node):
             input_cloud.point_step, input_cloud.is_bigendian)
 
         output_fields = make_fields()
-        unpacked = tuple(c for c in unpacked if nonzero(c))
         filtered = filter_point_data(unpacked, input_fields, output_fields)
+        filtered = tuple(c for c in filtered if nonzero(c))
 
         data = pack_point_data(
             filtered, output_fields, output_point_step, False)
-- 
2.43.0


From da918e7d80bb4a351b84abbe1d6bebc90e70920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 24/26] fix: convert clouds that use the bytes of the padding

A padding field was added to the fields of the input message, in place. It
misaligned the other fields of layouts that hold a value there, and a cloud
with a padding field of its own could not be converted at all.
---
 point_type_converter/point_type_converter/convert.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index 6a2da36..4747683 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -127,8 +127,12 @@ def find_indices(fields, names):
 
 
 def filter_point_data(point_tuples, input_fields, output_fields):
-    indices = find_indices(input_fields, [f.name for f in output_fields])
-    return tuple(tuple(chunk[i] for i in indices) for chunk in point_tuples)
+    names = [f.name for f in output_fields if f.name != 'padding']
+    indices = dict(zip(names, find_indices(input_fields, names)))
+    return tuple(
+        tuple(chunk[indices[f.name]] if f.name in indices else 0
+              for f in output_fields)
+        for chunk in point_tuples)
 
 
 output_point_step = 32
@@ -181,9 +185,7 @@ class PointTypeConverter(Node):
             PointCloud2, '/points_converted', reliable_keep_all())
 
     def callback(self, input_cloud):
-        input_fields = input_cloud.fields
-        input_fields.append(make_point_field('padding', 12, np.float32, 1))
-        input_fields = sorted(input_fields, key=lambda f: f.offset)
+        input_fields = sorted(input_cloud.fields, key=lambda f: f.offset)
         unpacked = unpack_point_bytes(
             input_cloud.data, input_fields,
             input_cloud.point_step, input_cloud.is_bigendian)
-- 
2.43.0


From 1c0a4ac01670cf086de260c5957a3737f4604368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:34 +0000
Subject: [PATCH 25/26] fix: compare azimuths in double precision

Single precision products are rounded or underflow, so that the comparison was not transitive
(and std::sort undefined) for returns of one beam and tiny coordinates.
---
 .../include/lidar_feature_extraction/ring.hpp     | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/extraction/include/lidar_feature_extraction/ring.hpp b/extraction/include/lidar_feature_extraction/ring.hpp
index b18775e..0f82a1d 100644
--- a/extraction/include/lidar_feature_extraction/ring.hpp
+++ b/extraction/include/lidar_feature_extraction/ring.hpp
@@ -64,10 +64,13 @@ struct AHasSmallerPolarAngleThanB
       return false;
     }
 
-    const double lena = a.x * a.x + a.y * a.y;
-    const double lenb = b.x * b.x + b.y * b.y;
+    // in single precision products can be rounded or underflow, which would make the order intransitive
+    const double ax = a.x;
+    const double ay = a.y;
+    const double bx = b.x;
+    const double by = b.y;
 
-    if (lena == 0) {
+    if (ax == 0 && ay == 0) {
       if (b.y == 0) {
         // for the case that b.x > 0
         // --> atan2(b.x, b.y) == atan2(a.y, a.x) == 0
@@ -76,7 +79,7 @@ struct AHasSmallerPolarAngleThanB
       return b.y > 0;
     }
 
-    if (lenb == 0) {
+    if (bx == 0 && by == 0) {
       return a.y < 0;
     }
 
@@ -89,8 +92,8 @@ struct AHasSmallerPolarAngleThanB
     }
 
     // both have the same y sign
-    if (a.y * b.y > 0) {
-      const double det = a.x * b.y - a.y * b.x;
+    if (ay * by > 0) {
+      const double det = ax * by - ay * bx;
       return det > 0;
     }
 
-- 
2.43.0


From 737d2a353e2c90556f38807a0fe9dfa3536b38b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 26/26] fix: skip the padding at the end of the rows of a
 received cloud

Organised clouds may have rows longer than their points (row_step > width * point_step).
---
 point_type_converter/point_type_converter/convert.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index 4747683..5199bac 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -115,6 +115,13 @@ def make_point_field(name, offset, datatype, count):
                       datatype=get_datatype_id(datatype), count=count)
 
 
+def remove_row_padding(bytes_data, height, row_step, row_size):
+    if row_step <= row_size:
+        return bytes_data
+    rows = (bytes_data[i*row_step:i*row_step+row_size] for i in range(height))
+    return b''.join(bytes(row) for row in rows)
+
+
 def split(collection, chunk_size):
     n = len(collection)
     m = chunk_size
@@ -186,8 +193,11 @@ class PointTypeConverter(Node):
 
     def callback(self, input_cloud):
         input_fields = sorted(input_cloud.fields, key=lambda f: f.offset)
+        input_data = remove_row_padding(
+            input_cloud.data, input_cloud.height, input_cloud.row_step,
+            input_cloud.width * input_cloud.point_step)
         unpacked = unpack_point_bytes(
-            input_cloud.data, input_fields,
+            input_data, input_fields,
             input_cloud.point_step, input_cloud.is_bigendian)
 
         output_fields = make_fields()
-- 
2.43.0

