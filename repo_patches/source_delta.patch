From 531657924c76dd4be6540dbbe808863d45026f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 01/27] fix: coefficients of the N-th derivative of a
 polynomial read past the base coefficient table

---
 .../include/mav_trajectory_generation/polynomial.h              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
index 6534a6f..fb7f60a 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
@@ -102,6 +102,8 @@ class Polynomial {
     } else {
       Eigen::VectorXd result(N_);
       result.setZero();
+      // All coefficients vanish; the base coefficient table has no such row.
+      if (derivative == N_) return result;
       result.head(N_ - derivative) =
           coefficients_.tail(N_ - derivative)
               .cwiseProduct(
-- 
2.43.0


From 094e9feb896412b1bda8114aae81101cb47c2bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 02/27] fix: stacking segments with different coefficient
 counts ignored their time scaling

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 8aa578e..d6c3a32 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -243,12 +243,12 @@ bool Segment::getSegmentWithAppendedDimension(const Segment& segment_to_append,
     for (int i = 0; i < new_D; i++) {
       Polynomial polynomial_to_append(new_N);
       if (i < D_) {
-        if (!polynomials_[i].getPolynomialWithAppendedCoefficients(
+        if (!current_segment[i].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
       } else {
-        if (!segment_to_append[i - D_].getPolynomialWithAppendedCoefficients(
+        if (!segment_to_append_temp[i - D_].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
-- 
2.43.0


From 1f55e79a6d689f246ea3dd67a52fb03a57e3ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 03/27] fix: magnitude candidates of a segment reported success
 for invalid dimensions or intervals

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index d6c3a32..71a370f 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -125,6 +125,11 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
   } else {
     // For dimension.size() == 1  we can simply evaluate the roots of the
     // derivative.
+    if (dimensions[0] < 0 || dimensions[0] >= D_) {
+      LOG(WARNING) << "Specified dimensions " << dimensions[0]
+                   << " are out of bounds [0.." << D_ - 1 << "]." << std::endl;
+      return false;
+    }
     if (!polynomials_[dimensions[0]].computeMinMaxCandidates(
             t_start, t_end, derivative, candidate_times)) {
       return false;
@@ -140,8 +145,10 @@ bool Segment::computeMinMaxMagnitudeCandidates(
   CHECK_NOTNULL(candidates);
   // Find candidate times (roots + start + end).
   std::vector<double> candidate_times;
-  computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end, dimensions,
-                                       &candidate_times);
+  if (!computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end,
+                                            dimensions, &candidate_times)) {
+    return false;
+  }
 
   // Evaluate candidate times.
   candidates->resize(candidate_times.size());
-- 
2.43.0


From e0b5265d2a7476eee1d91a9d1331f4ee9d2c33e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 04/27] fix: extracting one dimension of a trajectory lost its
 segment times

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 22d6dd7..b39dc41 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -150,6 +150,7 @@ Trajectory Trajectory::getTrajectoryWithSingleDimension(int dimension) const {
   for (size_t k = 0; k < segments_.size(); ++k) {
     Segment segment(N_, 1);
     segment[0] = (segments_[k])[dimension];
+    segment.setTime(segments_[k].getTime());
     segments.push_back(segment);
   }
 
-- 
2.43.0


From d7fa8b03f374c74113e71222d3600a44d73fdcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 05/27] fix: range evaluation sampled the wrong times for a
 start after the first joint

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index b39dc41..890e247 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -113,9 +113,16 @@ void Trajectory::evaluateRange(double t_start, double t_end, double dt,
     return;
   }
 
+  // Make sure we don't go off the end of the segments (can happen if t_start is
+  // equal to trajectory max time).
+  if (i >= segments_.size()) {
+    return;
+  }
   // Go back to the start of this segment.
   accumulated_time -= segments_[i].getTime();
   double time_in_segment = t_start - accumulated_time;
+  // From here on this is the time of the current sample.
+  accumulated_time = t_start;
 
   // Get all the samples, incrementing the segments as we go.
   while (accumulated_time < t_end) {
-- 
2.43.0


From 36a87c1210819bf6f6c013fd9a6120bbc634f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 06/27] fix: second derivative of a waypoint deformation lacked
 its constant term

---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index 80d99da..e9ae819 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -62,7 +62,7 @@ public:
       value = -((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     case 2:
-      value = ((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
+      value = (((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) - 1 / sigma_squared_) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     }
     value *= increment_;
-- 
2.43.0


From 73a260838d43ef890cd7ff39ac116de0ff08fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 07/27] fix: a waypoint deformation of zero width was not a
 number at its centre

---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index e9ae819..221cfcb 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -48,7 +48,8 @@ public:
   {
     // double max_reaction_time = MAX_REACTION_TIME;
     double max_reaction_time = 3.5 * sigma_;
-    if (std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time)
+    if (std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time ||
+        sigma_squared_ == 0)
     {
       return 0;
     }
-- 
2.43.0


From 03ece1efebaeca3099989f04cfd3254faa2ec2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 08/27] fix: copying a waypoint lost the width of its last
 deformation

---
 src/dynamic_waypoint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamic_waypoint.cpp b/src/dynamic_waypoint.cpp
index 5d62c87..b1972b7 100644
--- a/src/dynamic_waypoint.cpp
+++ b/src/dynamic_waypoint.cpp
@@ -28,6 +28,7 @@ namespace dynamic_traj_generator
         t_assigned_(other.t_assigned_), name_(other.name_), index_(other.index_)
   {
     modifiers_ = other.modifiers_;
+    last_sigma_ = other.last_sigma_;
   }
 
   void DynamicWaypoint::setCurrentPosition(Eigen::Vector3d position, double actual_time)
-- 
2.43.0


From b1153d7545979d0d602f6e0ea4d3ecdcb621a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 09/27] fix: bounds of free derivatives were placed on the
 wrong optimization variables

---
 .../impl/polynomial_optimization_nonlinear_impl.h            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index b8bd10f..51426bf 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -806,7 +806,6 @@ void PolynomialOptimizationNonLinear<_N>::
 
   const size_t n_free_constraints = poly_opt_.getNumberFreeConstraints();
   const size_t dim = poly_opt_.getDimension();
-  const int derivative_to_optimize = poly_opt_.getDerivativeToOptimize();
 
   // Set all values to -inf/inf and reset only bounded opti param with values
   lower_bounds->resize(dim * n_free_constraints,
@@ -825,7 +824,9 @@ void PolynomialOptimizationNonLinear<_N>::
     const double value_hc = constraint_data->value;
 
     for (size_t v = 0; v < vertices.size(); ++v) {
-      for (int deriv = 0; deriv <= derivative_to_optimize; ++deriv) {
+      for (int deriv = 0;
+           deriv <= PolynomialOptimization<_N>::kHighestDerivativeToOptimize;
+           ++deriv) {
         if (!vertices[v].hasConstraint(deriv)) {
           if (deriv == derivative_hc) {
             for (size_t k = 0; k < dim; ++k) {
-- 
2.43.0


From 2587523f5d9b472a406dc87e57eed4d883a54341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 10/27] fix: matrices with determinant below one were accepted
 as rotations

---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index be02f20..6c83556 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -178,7 +178,7 @@ inline bool isRotationMatrix(const Eigen::Matrix3d& mat){
     return false;
   }  
   // Check that det(R) = 1
-  if (mat.determinant() - 1.0 > kSmallValueCheck){
+  if (std::abs(mat.determinant() - 1.0) > kSmallValueCheck){
     std::cerr << "[mav_msgs::common] Rotation matrix requirement violated (det(R) = 1)" << std::endl;
     return false;
   }  
-- 
2.43.0


From 06a2434d6eac804f38c5095768eff09b223346f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 11/27] fix: velocity ramp estimate ignored the time factor

---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index a46cdaf..4f3b15d 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -245,7 +245,7 @@ std::vector<double> estimateSegmentTimesVelocityRamp(
     vertices[i].getConstraint(derivative_order::POSITION, &start);
     vertices[i + 1].getConstraint(derivative_order::POSITION, &end);
     double t = computeTimeVelocityRamp(start, end, v_max, a_max);
-    t = std::max(kMinSegmentTime, t);
+    t = std::max(kMinSegmentTime, time_factor * t);
     segment_times.push_back(t);
   }
 
-- 
2.43.0


From 1ddb283aa1505c38fe85ae27c348eba360f3c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 12/27] fix: coincident waypoints were allotted no segment time

---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index 4f3b15d..e08e85c 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -258,6 +258,9 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
   CHECK_GE(vertices.size(), 2);
   std::vector<double> segment_times;
   segment_times.reserve(vertices.size() - 1);
+
+  constexpr double kMinSegmentTime = 0.1;
+
   for (size_t i = 0; i < vertices.size() - 1; ++i) {
     Eigen::VectorXd start, end;
     vertices[i].getConstraint(derivative_order::POSITION, &start);
@@ -283,6 +286,7 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
     } else {
       t = distance / v_max;
     }
+    t = std::max(kMinSegmentTime, t);
     segment_times.push_back(t);
   }
   return segment_times;
-- 
2.43.0


From b9be46c7e8c3fe382367c35dfa9aa441c8b83a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 13/27] fix: maximum of recorded durations could not be below
 the smallest positive number

---
 .../include/mav_trajectory_generation/timing.h                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index f30305d..651b1cd 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -42,7 +42,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits<T>::max()),
-        max_(std::numeric_limits<T>::min()) {}
+        max_(std::numeric_limits<T>::lowest()) {}
 
   void Add(T sample) {
     if (window_samples_ < N) {
-- 
2.43.0


From c95b72d5af4b46a7f80719f5f03424cd39ce871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 14/27] fix: a failed trajectory computation left the future
 locked

---
 src/dynamic_trajectory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 518ed2c..e517f63 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -378,9 +378,9 @@ namespace dynamic_traj_generator
   void DynamicTrajectory::swapTrajectory()
   {
 
-    future_mutex_.lock();
+    std::unique_lock<std::mutex> future_lock(future_mutex_);
     auto new_trajectory = future_traj_.get();
-    future_mutex_.unlock();
+    future_lock.unlock();
 
     if (from_scratch_)
     {
-- 
2.43.0


From 30f45a15717d1a21ca4ba21ac7375209b79c6d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 15/27] fix: waypoint requests made while a trajectory was
 being planned were forgotten

---
 src/dynamic_trajectory.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index e517f63..6aecc8a 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -98,7 +98,10 @@ namespace dynamic_traj_generator
       iter->first = name;
       iter->second = position;
     }
-    generate_new_traj_ = generate_new_traj;
+    if (generate_new_traj)
+    {
+      generate_new_traj_ = true;
+    }
   }
   
   void DynamicTrajectory::modifyWaypoints(
@@ -246,7 +249,6 @@ namespace dynamic_traj_generator
         //   (next_trajectory_waypoint_.size() == 1 && !checkStitchTrajectory()))
         {
           DYNAMIC_LOG("No waypoints to generate a new trajectory");
-          generate_new_traj_ = false;
           continue;
         }
         parameters_mutex_.lock();
@@ -274,7 +276,6 @@ namespace dynamic_traj_generator
           appendDronePositionWaypoint(next_trajectory_waypoint_);
         }
         generateTrajectory(next_trajectory_waypoint_, false);
-        generate_new_traj_ = false;
       }
 
       else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
@@ -608,6 +609,7 @@ namespace dynamic_traj_generator
     waypoints_to_be_set_.clear();
     waypoints_to_be_added_.clear();
     waypoints_to_be_modified_.clear();
+    generate_new_traj_ = false;
     return next_trajectory_waypoints;
   }
 
@@ -676,7 +678,6 @@ namespace dynamic_traj_generator
         swapTrajectory();
         swapDynamicWaypoints();
         computing_new_trajectory_ = false;
-        generate_new_traj_ = false;
       }
     }
     return true;
-- 
2.43.0


From c2ef8d99e00d11dfc4e349a6ad7f75861df99a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 16/27] fix: magnitude candidates of a derivative beyond the
 polynomial's degree abort instead of being refused

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 71a370f..e5b5920 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -93,6 +93,11 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
   } else if (dimensions.size() > 1) {
     const int n_d = N_ - derivative;
     const int n_dd = n_d - 1;
+    if (n_dd < 0) {
+      LOG(WARNING) << "The requested derivative is identically zero."
+                   << std::endl;
+      return false;
+    }
     const int convolved_coefficients_length =
         Polynomial::getConvolutionLength(n_d, n_dd);
     Eigen::VectorXd convolved_coefficients(convolved_coefficients_length);
-- 
2.43.0


From a88d6219b1f244763f5d128719f76069afce3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 17/27] fix: the candidates of a one-dimensional magnitude
 missed its zero crossings

---
 .../include/mav_trajectory_generation/segment.h          | 3 ++-
 subpackages/mav_trajectory_generation/src/segment.cpp    | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
index ccd5645..cd07dfb 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/segment.h
@@ -73,7 +73,8 @@ class Segment {
 
   // Computes the candidates for the minimum and maximum magnitude of a single
   // segment in the specified derivative. In the 1D case, it simply returns the
-  // roots of the derivative of the segment-polynomial. For higher dimensions,
+  // roots of the derivative of the segment-polynomial and those of the
+  // polynomial itself (where its magnitude is zero). For higher dimensions,
   // e.g. 3D, we need to find the extrema of \sqrt{x(t)^2 + y(t)^2 + z(t)^2}
   // where x, y, z are polynomials describing the position or the derivative,
   // specified by Derivative. Taking the derivative yields
diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index e5b5920..f4f952c 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -139,6 +139,15 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
             t_start, t_end, derivative, candidate_times)) {
       return false;
     }
+    // The magnitude is also minimal where the value itself crosses zero.
+    std::vector<double> zero_crossing_times;
+    if (!polynomials_[dimensions[0]].computeMinMaxCandidates(
+            t_start, t_end, derivative - 1, &zero_crossing_times)) {
+      return false;
+    }
+    candidate_times->insert(candidate_times->end(),
+                            zero_crossing_times.begin(),
+                            zero_crossing_times.end());
   }
   return true;
 }
-- 
2.43.0


From a0b73af3a120424e2403b3ba8281023d1d59f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 18/27] fix: loading a trajectory from incomplete input
 aborted, threw or left a partial trajectory instead of refusing it

---
 .../include/mav_trajectory_generation/io.h                  | 6 ++++--
 subpackages/mav_trajectory_generation/src/io.cpp            | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
index b3ca603..67b8f94 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
@@ -57,9 +57,11 @@ inline bool trajectoryFromFile(
     const std::string& filename,
     mav_trajectory_generation::Trajectory* trajectory) {
   mav_trajectory_generation::Segment::Vector segments;
-  bool success = segmentsFromFile(filename, &segments);
+  if (!segmentsFromFile(filename, &segments)) return false;
+  // A trajectory has at least one segment.
+  if (segments.empty()) return false;
   trajectory->setSegments(segments);
-  return success;
+  return true;
 }
 
 bool sampledTrajectoryStatesToFile(const std::string& filename,
diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index bfa5159..0577523 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -116,8 +116,11 @@ bool segmentsFromYaml(const YAML::Node& node, Segment::Vector* segments) {
 bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory) {
   CHECK_NOTNULL(trajectory);
 
+  if (!node[kSegmentsKey]) return false;
   Segment::Vector segments;
   if (!segmentsFromYaml(node[kSegmentsKey], &segments)) return false;
+  // A trajectory has at least one segment.
+  if (segments.empty()) return false;
   trajectory->setSegments(segments);
 
   return true;
-- 
2.43.0


From fbcf9a05b5698b6ffff0681da3960fa55e4335b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:10 +0000
Subject: [PATCH 19/27] fix: apply a pending modification to the waypoints
 still waiting to be planned

The worker consumed pending position modifications on the flown waypoints only
while a plan was waiting for permission to start, so the waypoints already
queued by set/append kept their old position.
---
 src/dynamic_trajectory.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 6aecc8a..ae2569d 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -45,6 +45,22 @@ namespace dynamic_traj_generator
     return value;
   }
 
+  static void modifyPendingWaypoints(DynamicWaypoint::Vector &waypoints, const std::string &name,
+                                     const Eigen::Vector3d &position)
+  {
+    if (name == "")
+    {
+      return;
+    }
+    for (auto &waypoint : waypoints)
+    {
+      if (waypoint.getName() == name)
+      {
+        waypoint.resetWaypoint(position);
+      }
+    }
+  }
+
   static void calculateIndexDynamicWaypoints(DynamicWaypoint::Deque &dynamic_vector)
   {
     for (int i = 0; i < dynamic_vector.size(); i++)
@@ -285,6 +301,9 @@ namespace dynamic_traj_generator
         for (auto &modification : waypoints_to_be_modified_)
         {
           bool modified = applyWaypointModification(modification.first, modification.second);
+          // a plan may be waiting: its set and appended waypoints are modified as well
+          modifyPendingWaypoints(waypoints_to_be_set_, modification.first, modification.second);
+          modifyPendingWaypoints(waypoints_to_be_added_, modification.first, modification.second);
         }
         waypoints_to_be_modified_.clear();
       }
-- 
2.43.0


From 99f27295e7f10b37b9f0614ef6ed7330c12f94e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 20/27] fix: do not lose a regeneration report made while an
 earlier one is being read

getWasTrajectoryRegenerated read and cleared the flag in two steps; a report
made by the worker in between was cleared without being returned.
---
 src/dynamic_trajectory.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index ae2569d..4941e54 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -229,9 +229,7 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::getWasTrajectoryRegenerated()
   {
-    bool value = trajectory_regenerated_;
-    trajectory_regenerated_ = false;
-    return value;
+    return trajectory_regenerated_.exchange(false);
   }
   bool DynamicTrajectory::getGenerateNewTraj() const
   {
-- 
2.43.0


From 0139b9e98020f6c75d50e2825b615c47231986c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 21/27] fix: let only one client take a finished plan

Two clients that both saw the plan finished could both take it from the future:
the second one got std::future_error and the object never planned again.
---
 src/dynamic_trajectory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 4941e54..b6a6bbf 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -687,8 +687,11 @@ namespace dynamic_traj_generator
     if (computing_new_trajectory_ && future_traj_valid)
     {
       using namespace std::chrono_literals;
+      // only one client may take the finished plan
+      const std::lock_guard<std::mutex> swap_lock(traj_mutex_);
       future_mutex_.lock();
-      bool traj_ready = future_traj_.wait_for(0ms) == std::future_status::ready;
+      bool traj_ready = future_traj_.valid() &&
+                        future_traj_.wait_for(0ms) == std::future_status::ready;
       future_mutex_.unlock();
       if (traj_ready)
       {
-- 
2.43.0


From 65fe66bf60a511e554296941144ba7be43b896b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 22/27] fix: wait for the planning task before the object is
 destroyed

Destroying the object while a plan was being computed destroyed the members
the planning task works on (heap use after free in computeTrajectory).
---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index be10cfa..ef08f3e 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -127,6 +127,10 @@ class DynamicTrajectory {
   ~DynamicTrajectory() {
     stop_process_ = true;
     waitForGeneratingNewTraj_thread_.join();
+    // the planning task uses the members of this object until it ends
+    if (future_traj_.valid()) {
+      future_traj_.wait();
+    }
   }
 
   dynamic_traj_generator::DynamicWaypoint::Vector getNextTrajectoryWaypoints(){
-- 
2.43.0


From 1a4dd26575faf340c613ed94413cf328ce64b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 23/27] fix: stopping a timer that is not running records
 nothing

---
 subpackages/mav_trajectory_generation/src/timing.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/src/timing.cpp b/subpackages/mav_trajectory_generation/src/timing.cpp
index 479ad7d..2daec44 100644
--- a/subpackages/mav_trajectory_generation/src/timing.cpp
+++ b/subpackages/mav_trajectory_generation/src/timing.cpp
@@ -93,6 +93,7 @@ void Timer::Start() {
 }
 
 void Timer::Stop() {
+  if (!timing_) return;
   std::chrono::time_point<std::chrono::system_clock> now =
       std::chrono::system_clock::now();
   double dt = std::chrono::duration<double>(now - time_).count();
-- 
2.43.0


From f04d2a0091004e049ff952c97fd90ba9c1e9ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 24/27] fix: setting up the optimiser again kept the free
 values of the previous vertices

---
 .../impl/polynomial_optimization_linear_impl.h                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
index 4f7c6f9..3171211 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
@@ -233,6 +233,10 @@ void PolynomialOptimization<_N>::setupConstraintReorderingMatrix() {
   for (Eigen::VectorXd& df : fixed_constraints_compact_)
     df.resize(n_fixed_constraints_, Eigen::NoChange);
 
+  // Free values of an earlier setup do not belong to these vertices.
+  for (Eigen::VectorXd& dp : free_constraints_compact_)
+    dp.setZero(n_free_constraints_);
+
   int row = 0;
   int col = 0;
   for (const Constraint& ca : all_constraints) {
-- 
2.43.0


From f066f2df8c13b9d8bafcdae23eb6942384aeb820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:33 +0000
Subject: [PATCH 25/27] fix: the nonlinear optimiser kept the last candidate
 tried instead of the accepted one

---
 .../polynomial_optimization_nonlinear_impl.h    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index 51426bf..ff62fe2 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -164,6 +164,10 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
     return nlopt::FAILURE;
   }
 
+  // The last candidate evaluated is not necessarily the accepted one.
+  poly_opt_.updateSegmentTimes(segment_times);
+  poly_opt_.solveLinear();
+
   return result;
 }
 
@@ -220,6 +224,10 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeMellingerOuterLoop() {
     }
   }
 
+  // The last candidate evaluated is not necessarily the accepted one.
+  poly_opt_.updateSegmentTimes(segment_times);
+  poly_opt_.solveLinear();
+
   // Scaling of segment times
   std::vector<double> relative_segment_times;
   poly_opt_.getSegmentTimes(&relative_segment_times);
@@ -519,6 +527,15 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeAndFreeConstraints() {
     return nlopt::FAILURE;
   }
 
+  // The last candidate evaluated is not necessarily the accepted one.
+  std::vector<double>::const_iterator accepted = initial_solution.begin();
+  for (double& t : segment_times) t = *accepted++;
+  for (Eigen::VectorXd& c : free_constraints) {
+    for (int i = 0; i < c.size(); ++i) c[i] = *accepted++;
+  }
+  poly_opt_.updateSegmentTimes(segment_times);
+  poly_opt_.setFreeConstraints(free_constraints);
+
   return result;
 }
 
-- 
2.43.0


From 69e241c877f2a4649485fdaf63fee7d8a89f1218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:33 +0000
Subject: [PATCH 26/27] fix: unbounded optimisation variables were bounded by
 the largest number, which overflows in COBYLA

---
 .../impl/polynomial_optimization_nonlinear_impl.h      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index ff62fe2..ece29d5 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -145,7 +145,7 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
     // Set a lower bound on the segment time per segment to avoid numerical
     // issues.
     nlopt_->set_initial_step(initial_step);
-    nlopt_->set_upper_bounds(std::numeric_limits<double>::max());
+    nlopt_->set_upper_bounds(std::numeric_limits<double>::infinity());
     nlopt_->set_lower_bounds(kOptimizationTimeLowerBound);
     nlopt_->set_min_objective(
         &PolynomialOptimizationNonLinear<N>::objectiveFunctionTime, this);
@@ -190,7 +190,7 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeMellingerOuterLoop() {
   try {
     // Set a lower bound on the segment time per segment to avoid numerical
     // issues.
-    nlopt_->set_upper_bounds(std::numeric_limits<double>::max());
+    nlopt_->set_upper_bounds(std::numeric_limits<double>::infinity());
     nlopt_->set_lower_bounds(kOptimizationTimeLowerBound);
     nlopt_->set_min_objective(&PolynomialOptimizationNonLinear<
                                   N>::objectiveFunctionTimeMellingerOuterLoop,
@@ -468,7 +468,7 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeAndFreeConstraints() {
   // Set segment time constraints
   for (size_t l = 0; l < n_segments; ++l) {
     lower_bounds.push_back(kOptimizationTimeLowerBound);
-    upper_bounds.push_back(std::numeric_limits<double>::max());
+    upper_bounds.push_back(std::numeric_limits<double>::infinity());
   }
   // Append free endpoint derivative constraints
   lower_bounds.insert(std::end(lower_bounds), std::begin(lower_bounds_free),
@@ -826,9 +826,9 @@ void PolynomialOptimizationNonLinear<_N>::
 
   // Set all values to -inf/inf and reset only bounded opti param with values
   lower_bounds->resize(dim * n_free_constraints,
-                       std::numeric_limits<double>::lowest());
+                       -std::numeric_limits<double>::infinity());
   upper_bounds->resize(dim * n_free_constraints,
-                       std::numeric_limits<double>::max());
+                       std::numeric_limits<double>::infinity());
 
   // Add higher order derivative constraints (v_max and a_max)
   // Check at each vertex which of the derivatives is a free derivative.
-- 
2.43.0


From 4a30c53c43d47fb1603adb469408fc82f72fdd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 27/27] fix: use the companion matrix when the root finder does
 not converge

---
 .../mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
index e9d1240..4b2eb42 100644
--- a/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
+++ b/subpackages/mav_trajectory_generation/src/rpoly/rpoly_ak1.cpp
@@ -44,6 +44,8 @@
 #include <cmath>
 #include <cfloat>
 
+#include <unsupported/Eigen/Polynomials>
+
 #include "mav_trajectory_generation/rpoly/rpoly_ak1.h"
 
 namespace mav_trajectory_generation {
@@ -98,7 +100,14 @@ bool findRootsJenkinsTraub(const Eigen::VectorXd& coefficients_increasing,
   }
 
   rpolyWrapper(polynomial, &degree, roots_real, roots_imag);
-  if (degree > 0) {
+  if (degree < n_coefficients - 1) {
+    // Jenkins-Traub did not converge to all roots: use the eigenvalues of the
+    // companion matrix.
+    Eigen::PolynomialSolver<double, Eigen::Dynamic> solver(
+        coefficients_decreasing.reverse());
+    *roots = solver.roots();
+    degree = roots->size();
+  } else {
     roots->resize(degree);
     for (int i = 0; i < degree; ++i) {
       (*roots)[i] = std::complex<double>(roots_real[i], roots_imag[i]);
-- 
2.43.0

