From f2824409786718cb1a3a575a2a2a650099f28e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:06 +0000
Subject: [PATCH 01/21] fix: num_samples() on doubles truncated the count to
 int and dropped an endpoint

The count was cast to int, which is undefined for counts beyond 32 bits, and a
max_abs_dt much larger than the interval (e.g. infinity) gave a single sample,
so sample_interval() passed NaN (0/0) to the functor.
---
 resim/time/sample_interval.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 4d842c1..f80fd35 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -6,7 +6,9 @@
 
 #include "resim/time/sample_interval.hh"
 
+#include <algorithm>
 #include <cmath>
+#include <cstdint>
 
 #include "resim/assert/assert.hh"
 #include "resim/math/safe_integer_utils.hh"
@@ -29,7 +31,16 @@ int64_t num_samples(double start_time, double end_time, double max_abs_dt) {
   //
   // n = ceil(total_time / max_abs_dt) + 1
   //
-  return static_cast<int>(std::ceil(total_time / max_abs_dt)) + 1;
+  // Except that we always need both endpoints when they're distinct, even if
+  // the quotient underflows to zero (e.g. because max_abs_dt is infinite).
+  const double min_intervals = total_time > 0. ? 1. : 0.;
+  const double intervals =
+      std::max(std::ceil(total_time / max_abs_dt), min_intervals);
+
+  // This is 2^63, so anything smaller can safely be cast to int64_t.
+  constexpr double INTERVALS_LIMIT = 9223372036854775808.;
+  REASSERT(intervals < INTERVALS_LIMIT, "Too many samples requested!");
+  return math::safe_sum(static_cast<int64_t>(intervals), 1);
 }
 
 void sample_interval(
-- 
2.43.0


From e2a73d27aeb9d96866b04cf75a5287ff7a8e6ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:06 +0000
Subject: [PATCH 02/21] fix: num_samples() on Timestamps counted two samples
 for an empty interval

---
 resim/time/sample_interval.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index f80fd35..56d9e64 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -69,6 +69,12 @@ int64_t num_samples(
       end_time.time_since_epoch().count(),
       start_time.time_since_epoch().count()))};
 
+  // Both endpoints are the same, so a single sample covers them. The integer
+  // division below would otherwise truncate -1 / max_abs_dt towards zero.
+  if (total_time.count() == 0) {
+    return 1;
+  }
+
   // We want to find the smallest integer n such that:
   //
   // max_abs_dt * (n - 1) >= total_time
-- 
2.43.0


From c4b8b95a5daa7ca5d17449e471dc48fb7ad82afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:06 +0000
Subject: [PATCH 03/21] fix: sample_interval() on Timestamps rounded reversed
 intervals away from nearest and overflowed

For reversed intervals the numerator is negative so the samples were truncated
instead of rounded to the nearest Timestamp, and for long intervals the
accumulators overflowed (an exception midway, or undefined behaviour after the
last sample).
---
 resim/time/sample_interval.cc | 42 ++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 56d9e64..6fe5481 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -108,36 +108,48 @@ void sample_interval(
   }
   const int64_t samples = num_samples(start_time, end_time, max_abs_dt);
   const int64_t intervals = samples - 1;
-  const Duration total_time{math::safe_difference(
+  const int64_t total_count = math::safe_difference(
       end_time.time_since_epoch().count(),
-      start_time.time_since_epoch().count())};
+      start_time.time_since_epoch().count());
+  const int64_t sign = total_count < 0 ? -1 : 1;
+  const int64_t abs_total_count = math::safe_abs(total_count);
 
   // When we divide the range into perfect intervals, we get rational
-  // samples. We track the locations of these rational samples using a
-  // mixed number so that we don't risk integer overflow in our
-  // numerator. In particular, every rational sample position is given
-  // by:
+  // samples. We track the distance of these rational samples from the
+  // start time using a mixed number so that we don't risk integer
+  // overflow in our numerator. In particular, every rational sample's
+  // distance is given by:
   //
   // whole + numerator / intervals
   //
   // Since we need to make a timestamp with an integer count, we
   // always just round to the nearest integer.
+  const int64_t whole_step = abs_total_count / intervals;
+  const int64_t numerator_step = abs_total_count % intervals;
   int64_t whole = 0;
   int64_t numerator = 0;
   for (int64_t ii = 0; ii < samples; ++ii) {
     // Should never overflow since rounded will be less than or equal to
-    // total_time.
-    const int64_t rounded = whole + ((2 * numerator >= intervals) ? 1 : 0);
-    const Duration time{rounded};
+    // abs_total_count.
+    const int64_t rounded =
+        whole + ((numerator >= intervals - numerator) ? 1 : 0);
+    const Duration time{sign * rounded};
 
     func(start_time + time);
 
-    // Increment
-    numerator = math::safe_sum(numerator, total_time.count());
-
-    // Restore the mixed number
-    whole += numerator / intervals;
-    numerator %= intervals;
+    // Don't increment past the last sample.
+    if (ii + 1 == samples) {
+      break;
+    }
+
+    // Increment the mixed number
+    whole += whole_step;
+    if (numerator >= intervals - numerator_step) {
+      numerator -= intervals - numerator_step;
+      ++whole;
+    } else {
+      numerator += numerator_step;
+    }
   }
 }
 
-- 
2.43.0


From 33a9e605c233de0ad49d3fb015e91461f2b3b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 04/21] fix: se3_distance() subtracted translations expressed
 in different frames

The translations of a_from_ref and b_from_ref are expressed in a and b
respectively so the result only matched the documented
a_from_b.translation().norm() when the rotations don't matter.
---
 resim/transforms/se3.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resim/transforms/se3.cc b/resim/transforms/se3.cc
index f63d57e..195571a 100644
--- a/resim/transforms/se3.cc
+++ b/resim/transforms/se3.cc
@@ -266,7 +266,13 @@ template SE3 SE3::exp(const TangentVector &, Frame3 &&, const Frame3 &);
 
 double se3_distance(const SE3 &a_from_ref, const SE3 &b_from_ref) {
   REASSERT(a_from_ref.from() == b_from_ref.from(), "From frames must match");
-  return (a_from_ref.translation() - b_from_ref.translation()).norm();
+  // Compare the origins of a and b expressed in ref (up to sign). Since the
+  // translation of x_from_ref is expressed in x, it has to be rotated first.
+  const Eigen::Vector3d a_in_ref =
+      a_from_ref.rotation().inverse() * a_from_ref.translation();
+  const Eigen::Vector3d b_in_ref =
+      b_from_ref.rotation().inverse() * b_from_ref.translation();
+  return (a_in_ref - b_in_ref).norm();
 }
 
 double se3_inverse_distance(const SE3 &ref_from_a, const SE3 &ref_from_b) {
-- 
2.43.0


From 701caf24c29fe6873d0d555e232c7755339801d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 05/21] fix: FramedVector::isApprox() ignored frames for
 non-const arguments

The forwarding overload was a better match for a non-const FramedVector, so
vectors in different frames compared as approximately equal.
---
 resim/transforms/framed_vector.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/resim/transforms/framed_vector.hh b/resim/transforms/framed_vector.hh
index 2b4c792..6fb162e 100644
--- a/resim/transforms/framed_vector.hh
+++ b/resim/transforms/framed_vector.hh
@@ -7,6 +7,7 @@
 #pragma once
 
 #include <Eigen/Dense>
+#include <type_traits>
 #include <utility>
 
 #include "resim/assert/assert.hh"
@@ -102,9 +103,16 @@ class FramedVector : public Eigen::Matrix<double, dims, 1> {
   // Because the overload of isApprox above clobbers the base class method,
   // we must redeclare this method here in order to forward comparisons with
   // non-FramedVector types to the base class method.
-  template <typename... Args>
-  bool isApprox(Args &&...args) const {
-    return Vector::isApprox(std::forward<Args>(args)...);
+  // FramedVectors are excluded so that this overload is never preferred to the
+  // one above (e.g. for non-const arguments), which would ignore the frames.
+  template <typename Other, typename... Args>
+  requires(!std::is_base_of_v<
+           FramedVector<dims>,
+           std::remove_cvref_t<Other>>)  //
+      bool isApprox(Other &&other, Args &&...args) const {
+    return Vector::isApprox(
+        std::forward<Other>(other),
+        std::forward<Args>(args)...);
   }
 
   void set_frame(const Frame<dims> &frame) { frame_ = frame; }
-- 
2.43.0


From 40e531300c9e4f692d0c6b3478fcf870c654650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:30 +0000
Subject: [PATCH 06/21] fix: UUID(string) accepted a valid UUID followed by a
 null character and garbage

---
 resim/utils/uuid.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resim/utils/uuid.cc b/resim/utils/uuid.cc
index fd9d817..b3278b6 100644
--- a/resim/utils/uuid.cc
+++ b/resim/utils/uuid.cc
@@ -21,6 +21,9 @@ UUID::UUID() : id_{NULL_ID} {}
 UUID::UUID(std::array<unsigned char, ARRAY_SIZE> id) : id_(id) {}
 
 UUID::UUID(const std::string &str) : id_{} {
+  // The uuid library stops at the first null character so it can't see whatever
+  // might come after it.
+  REASSERT(str.find('\0') == std::string::npos, "Invalid UUID string!");
   constexpr int SUCCESS = 0;
   const int result = uuid_parse(str.c_str(), id_.data());
   REASSERT(SUCCESS == result, "Invalid UUID string!");
-- 
2.43.0


From 97bb4250c0a2c3de2f1d672d9800c8950781789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:09 +0000
Subject: [PATCH 07/21] fix: DCurve::point_at(0) returned a NaN pose when the
 first segment has no length

---
 resim/curves/d_curve.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resim/curves/d_curve.cc b/resim/curves/d_curve.cc
index faa6036..3a04435 100644
--- a/resim/curves/d_curve.cc
+++ b/resim/curves/d_curve.cc
@@ -132,8 +132,14 @@ typename DCurve<Group>::PointAtData DCurve<Group>::point_at_impl(
       });
   REASSERT(s != segments_.end(), "Did not find valid segment.");
 
-  const double fraction = (arc_length - s->orig_arc_length) /
-                          (s->dest_arc_length - s->orig_arc_length);
+  // The first segment can be queried even if it has no length (e.g. because the
+  // first two control points only differ in rotation), in which case every
+  // fraction has the same arc length.
+  const double segment_length = s->dest_arc_length - s->orig_arc_length;
+  const double fraction =
+      segment_length > ZERO
+          ? (arc_length - s->orig_arc_length) / segment_length
+          : ZERO;
   return {.fraction = fraction, .s = s};
 }
 
-- 
2.43.0


From 83b47cb3ed886cf153bf062551cf6de875c73d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:09 +0000
Subject: [PATCH 08/21] fix: TCurve::point_at() accepted NaN as a time within
 range

---
 resim/curves/t_curve.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resim/curves/t_curve.cc b/resim/curves/t_curve.cc
index 4e5a719..df9864a 100644
--- a/resim/curves/t_curve.cc
+++ b/resim/curves/t_curve.cc
@@ -139,9 +139,10 @@ typename TCurve<Group>::PointAtData TCurve<Group>::point_at_impl(
   REASSERT(!segments_.empty(), EMPTY_ERR);
   constexpr auto TIME_RANGE_ERR =
       "Query time must be within the range of times in the control points.";
-  const bool time_lo = time < control_pts_.front().time;
-  const bool time_hi = time > control_pts_.back().time;
-  REASSERT(!time_lo && !time_hi, TIME_RANGE_ERR);
+  // Note that these are both false for NaN.
+  const bool after_start = time >= control_pts_.front().time;
+  const bool before_end = time <= control_pts_.back().time;
+  REASSERT(after_start && before_end, TIME_RANGE_ERR);
   const auto s = std::lower_bound(
       segments_.begin(),
       segments_.end(),
-- 
2.43.0


From 8c99b3c125404c151b13e766aae8083a678871c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:02 +0000
Subject: [PATCH 09/21] fix: Trajectory end_time() and time_duration() read
 past an empty control point list

---
 resim/actor/state/trajectory.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resim/actor/state/trajectory.cc b/resim/actor/state/trajectory.cc
index 1375305..65ad721 100644
--- a/resim/actor/state/trajectory.cc
+++ b/resim/actor/state/trajectory.cc
@@ -73,6 +73,9 @@ time::Timestamp Trajectory::end_time() const {
 }
 
 time::Duration Trajectory::time_duration() const {
+  constexpr auto EMPTY_ERR =
+      "Cannot query the duration of a trajectory with no control points";
+  REASSERT(!curve_.control_pts().empty(), EMPTY_ERR);
   return time::as_duration(curve_.control_pts().back().time);
 }
 
-- 
2.43.0


From 272864d04b31f6b31384ff49ffe31ebb58a780e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:55 +0000
Subject: [PATCH 10/21] fix: unpacking a Trajectory overflowed on start times
 beyond the timestamp range

---
 resim/actor/state/proto/trajectory_to_proto.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/resim/actor/state/proto/trajectory_to_proto.cc b/resim/actor/state/proto/trajectory_to_proto.cc
index 432f629..4a1eb1f 100644
--- a/resim/actor/state/proto/trajectory_to_proto.cc
+++ b/resim/actor/state/proto/trajectory_to_proto.cc
@@ -6,6 +6,9 @@
 
 #include "resim/actor/state/proto/trajectory_to_proto.hh"
 
+#include <cstdint>
+#include <ratio>
+
 #include "google/protobuf/timestamp.pb.h"
 #include "resim/actor/state/proto/trajectory.pb.h"
 #include "resim/actor/state/trajectory.hh"
@@ -28,8 +31,19 @@ void pack(const state::Trajectory &in, Trajectory *const out) {
 }
 
 state::Trajectory unpack(const Trajectory &in) {
-  time::Timestamp start_time{time::from_seconds_and_nanos(
-      {in.start_time().seconds(), in.start_time().nanos()})};
+  // Make sure that the start time is representable before converting it.
+  int64_t start_time_ns = 0;
+  const bool overflows =
+      __builtin_mul_overflow(
+          int64_t{in.start_time().seconds()},
+          int64_t{std::nano::den},
+          &start_time_ns) or
+      __builtin_add_overflow(
+          start_time_ns,
+          int64_t{in.start_time().nanos()},
+          &start_time_ns);
+  REASSERT(not overflows, "Start time out of range!");
+  time::Timestamp start_time{time::Duration{start_time_ns}};
   return state::Trajectory(unpack(in.curve()), start_time);
 }
 
-- 
2.43.0


From a09e3a820ace8220092a4c89edb55f8dcb112844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:19 +0000
Subject: [PATCH 11/21] fix: RETURN_OR_ASSIGN() used a temporary StatusValue
 after its destruction

---
 resim/utils/status_value.hh | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/resim/utils/status_value.hh b/resim/utils/status_value.hh
index 3d73fc6..73e9f2d 100644
--- a/resim/utils/status_value.hh
+++ b/resim/utils/status_value.hh
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <tuple>
 #include <type_traits>
 #include <utility>
 
@@ -150,18 +151,19 @@ constexpr const Status &StatusValue<T>::status() const {
 // ok. Otherwise, assign the value as the value of this expression. We don't
 // really have a choice but to use the GNU statement expression extension here
 // unless we pass the assignment target in too. We use the lambda because
-// otherwise the statement expression doesn't preserve references.
+// otherwise the statement expression doesn't preserve references. The lambda
+// holds references as such, but owns temporaries since they'd otherwise be gone
+// by the time that it is called.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define RETURN_OR_ASSIGN(status_value)                        \
-  ({                                                          \
-    auto &&evalutated_status_value =                          \
-        std::forward<decltype(status_value)>(status_value);   \
-    RETURN_IF_NOT_OK(evalutated_status_value.status());       \
-    [&]() -> decltype(auto) {                                 \
-      return std::forward<decltype(evalutated_status_value)>( \
-                 evalutated_status_value)                     \
-          .value();                                           \
-    };                                                        \
+#define RETURN_OR_ASSIGN(status_value)                                     \
+  ({                                                                       \
+    std::tuple<decltype(status_value)> evaluated_status_value{             \
+        std::forward<decltype(status_value)>(status_value)};               \
+    RETURN_IF_NOT_OK(std::get<0>(evaluated_status_value).status());        \
+    [held_status_value = std::move(                                        \
+         evaluated_status_value)]() mutable -> decltype(auto) {            \
+      return std::get<0>(std::move(held_status_value)).value();            \
+    };                                                                     \
   })()
 
 }  // namespace resim
-- 
2.43.0


From 94bca4dadc2dbc53a79fb49aac3ee3d99a65ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:07 +0000
Subject: [PATCH 12/21] fix: CHECK_STATUS_OK() evaluated its argument twice

---
 resim/utils/status.hh | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/resim/utils/status.hh b/resim/utils/status.hh
index c46ff2f..afb8342 100644
--- a/resim/utils/status.hh
+++ b/resim/utils/status.hh
@@ -79,14 +79,15 @@ constexpr Status OKAY_STATUS{};
 
 // Define a macro to check that a given status is okay.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define CHECK_STATUS_OK(status)       \
-  ({                                  \
-    const auto err_msg = fmt::format( \
-        fg(fmt::color::red),          \
-        "{{{0}.what() == {1}}}",      \
-        #status,                      \
-        (status).what());             \
-    REASSERT((status).ok(), err_msg); \
+#define CHECK_STATUS_OK(status)                     \
+  ({                                                \
+    const auto evaluated_check_status = (status);   \
+    const auto err_msg = fmt::format(               \
+        fg(fmt::color::red),                        \
+        "{{{0}.what() == {1}}}",                    \
+        #status,                                    \
+        evaluated_check_status.what());             \
+    REASSERT(evaluated_check_status.ok(), err_msg); \
   })
 
 // Return from the enclosing function if the given status result is not ok.
-- 
2.43.0


From f41bc3f48a685326daa7a9eb1fe7f35fc407a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:16 +0000
Subject: [PATCH 13/21] fix: Gaussian rejected valid covariances of strongly
 correlated variables

---
 resim/math/multivariate_gaussian.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resim/math/multivariate_gaussian.cc b/resim/math/multivariate_gaussian.cc
index 7e33f75..e551795 100644
--- a/resim/math/multivariate_gaussian.cc
+++ b/resim/math/multivariate_gaussian.cc
@@ -59,11 +59,11 @@ typename Gaussian::SamplesMat Gaussian::iid_samples(unsigned int n) {
 void Gaussian::sanitize_eigenvalues() {
   constexpr double TOL_BASE = 1e-15;
   // We need to scale our tolerance according to the scale of the covariance
-  // matrix. Broadly, covariance matrices with wider ranging values deserve
-  // wider tolerance. There may be a more principled way to do this than the
-  // method below, however this performs sufficiently well on our test cases.
-  const double tol =
-      std::max((cov_.maxCoeff() - cov_.minCoeff()) * TOL_BASE, TOL_BASE);
+  // matrix. The errors of the solver are proportional to the norm of the
+  // covariance matrix, which dims_ times its largest coefficient bounds.
+  constexpr double TOL_FACTOR = 4.;
+  const double norm_bound = dims_ * cov_.cwiseAbs().maxCoeff();
+  const double tol = std::max(TOL_FACTOR * norm_bound * TOL_BASE, TOL_BASE);
   constexpr auto EIGENVALS_ERR =
       "Symmetric PSD matrices have positive eigenvalues";
   REASSERT(eigenvalues_.minCoeff() > -tol, EIGENVALS_ERR);
-- 
2.43.0


From d70fd530d470dcd3f9c833a535bcd02aedf42b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:38 +0000
Subject: [PATCH 14/21] fix: DeviceCodeClient failed to save a token to a path
 without a directory

---
 resim/auth/device_code_client.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resim/auth/device_code_client.cc b/resim/auth/device_code_client.cc
index 640eec4..29330ee 100644
--- a/resim/auth/device_code_client.cc
+++ b/resim/auth/device_code_client.cc
@@ -72,7 +72,10 @@ void DeviceCodeClient::refresh() {
 }
 
 void DeviceCodeClient::save_token() {
-  std::filesystem::create_directories(config_.token_path.parent_path());
+  // A path without a directory names a file in the current directory.
+  if (config_.token_path.has_parent_path()) {
+    std::filesystem::create_directories(config_.token_path.parent_path());
+  }
   std::ofstream token_stream;
   token_stream.open(config_.token_path);
   token_stream << token_;
-- 
2.43.0


From bf4c2d12b6069c90f225c4cd61d7e7b14fb43cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:33 +0000
Subject: [PATCH 15/21] fix: a view statement could return normally although
 its object was lost in another thread's failed update

---
 resim/visualization/view.cc | 39 +++++++++++++++++++++----------------
 resim/visualization/view.hh |  4 ++++
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/resim/visualization/view.cc b/resim/visualization/view.cc
index 6da8b9c..b290fb4 100644
--- a/resim/visualization/view.cc
+++ b/resim/visualization/view.cc
@@ -72,29 +72,34 @@ template View &View::operator<< <FramedVector>(const FramedVector &subject);
 
 template <typename T>
 void View::view_object(ViewObject<T> view_object) {
-  {
-    // In a separate scope since flush() needs this lock
-    std::lock_guard<std::mutex> guard{primitives_mutex_};
-
-    // We simply push the primitivies in here without packing
-    // them. The whole ViewUpdate will be packed by the ViewClient.
-    // The user defined name is an std::optional so the existence
-    // of a value i.e. a custom name is not cared about here.
-    primitives_.emplace_back(ViewPrimitive{
-        .id = UUID::new_uuid(),
-        .payload = view_object.the_object,
-        .user_defined_name = view_object.user_defined_name,
-        .file_name = view_object.file_name,
-        .line_number = view_object.line_number,
-    });
-  }
+  // The lock is held until the primitive has been sent. If it was released in
+  // between, another thread could send this primitive along with its own, and
+  // if that failed then this primitive would be lost without this call failing.
+  std::lock_guard<std::mutex> guard{primitives_mutex_};
+
+  // We simply push the primitivies in here without packing
+  // them. The whole ViewUpdate will be packed by the ViewClient.
+  // The user defined name is an std::optional so the existence
+  // of a value i.e. a custom name is not cared about here.
+  primitives_.emplace_back(ViewPrimitive{
+      .id = UUID::new_uuid(),
+      .payload = view_object.the_object,
+      .user_defined_name = view_object.user_defined_name,
+      .file_name = view_object.file_name,
+      .line_number = view_object.line_number,
+  });
+
   // Currently, we pack each primitive into its own update and send eagerly to
   // the view server.
-  flush();
+  send_primitives();
 }
 
 void View::flush() {
   std::lock_guard<std::mutex> guard{primitives_mutex_};
+  send_primitives();
+}
+
+void View::send_primitives() {
   REASSERT(client_ != nullptr, "No client interface set!");
   Status send_status = client_->send_view_update(ViewUpdate{
       .primitives = std::move(primitives_),
diff --git a/resim/visualization/view.hh b/resim/visualization/view.hh
index 5542616..30d9476 100644
--- a/resim/visualization/view.hh
+++ b/resim/visualization/view.hh
@@ -139,6 +139,10 @@ class View {
   // @param[in] The new client.
   void set_client(std::unique_ptr<ViewClientInterface> &&client);
 
+  // Transmit all currently stored primitives. The caller must hold
+  // primitives_mutex_.
+  void send_primitives();
+
   std::unique_ptr<ViewClientInterface> client_;
 
   std::vector<ViewPrimitive> primitives_;
-- 
2.43.0


From 1b93d5c44cfef96f77afec3d3359c00c164749c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:26 +0000
Subject: [PATCH 16/21] fix: check frames when accumulating framed vectors

---
 resim/transforms/framed_vector.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resim/transforms/framed_vector.hh b/resim/transforms/framed_vector.hh
index 6fb162e..adb214d 100644
--- a/resim/transforms/framed_vector.hh
+++ b/resim/transforms/framed_vector.hh
@@ -77,6 +77,16 @@ class FramedVector : public Eigen::Matrix<double, dims, 1> {
     return Vector::operator+(other);
   }
 
+  // Accumulating another framed vector checks the frames like summing does. The
+  // base class operator remains available for unframed vectors.
+  // @param[in] other - A FramedVector to add to this one.
+  FramedVector<dims> &operator+=(const FramedVector<dims> &other) {
+    REASSERT(frame_ == other.frame_, "Vector frames must match");
+    Vector::operator+=(other);
+    return *this;
+  }
+  using Vector::operator+=;
+
   // Equality comparison operator that considers the frame as well
   // as the vector.
   // Note that comparisons between unframed and framed vectors still work,
-- 
2.43.0


From cf5aa4cab277ba51427f735bd8c3590f097c9fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:47 +0000
Subject: [PATCH 17/21] fix: LieGroup::set_frames keeps both frames when given
 the group's own

---
 resim/transforms/liegroup.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resim/transforms/liegroup.hh b/resim/transforms/liegroup.hh
index dc3fce5..b9f813d 100644
--- a/resim/transforms/liegroup.hh
+++ b/resim/transforms/liegroup.hh
@@ -60,8 +60,11 @@ class LieGroup {
         "unframed "
         "use set_unframed()";
     REASSERT(!(into.is_null() or from.is_null()), NULL_FRAME_ERR);
+    // The arguments may refer to this group's own frames, so copy before the
+    // first assignment can change what the second one reads.
+    const Frame<DIMS> new_from{from};
     into_ = into;
-    from_ = from;
+    from_ = new_from;
   }
 
   void set_unframed() {
-- 
2.43.0


From 19fb4e1d2fc6f17a3de8c4e710cbb88d2c8d3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:01 +0000
Subject: [PATCH 18/21] fix: refuse trajectory times too far from the start
 instead of wrapping around

---
 resim/actor/state/trajectory.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/resim/actor/state/trajectory.cc b/resim/actor/state/trajectory.cc
index 65ad721..05d9efc 100644
--- a/resim/actor/state/trajectory.cc
+++ b/resim/actor/state/trajectory.cc
@@ -6,6 +6,8 @@
 
 #include "resim/actor/state/trajectory.hh"
 
+#include <cstdint>
+
 #include "resim/actor/state/rigid_body_state.hh"
 #include "resim/assert/assert.hh"
 #include "resim/curves/t_curve.hh"
@@ -19,6 +21,20 @@ namespace resim::actor::state {
 namespace {
 using SE3 = transforms::SE3;
 using Frame = transforms::Frame<SE3::DIMS>;
+
+// The time from start to at_time, failing if it can't be represented rather
+// than wrapping around to a time on the other side of start.
+time::Duration time_since(
+    const time::Timestamp &start,
+    const time::Timestamp &at_time) {
+  int64_t difference_ns = 0;
+  const bool overflows = __builtin_sub_overflow(
+      int64_t{at_time.time_since_epoch().count()},
+      int64_t{start.time_since_epoch().count()},
+      &difference_ns);
+  REASSERT(not overflows, "Time is too far from the start of the trajectory!");
+  return time::Duration{difference_ns};
+}
 }  // namespace
 
 Trajectory::Trajectory(std::initializer_list<Control> points) {
@@ -45,7 +61,7 @@ void Trajectory::append(const Control &point) {
     REASSERT(frame_condition, FRAME_ERR);
   }
   // Convert the point to a valid format for the TCurve object.
-  double time = time::as_seconds(point.at_time - start_time());
+  double time = time::as_seconds(time_since(start_time(), point.at_time));
   curve_.append({time, point.state.ref_from_body_two_jet().left_two_jet()});
 }
 
@@ -56,7 +72,7 @@ void Trajectory::append(std::initializer_list<Control> points) {
 }
 
 RigidBodyState<SE3> Trajectory::point_at(const time::Timestamp &at_time) const {
-  const double time = time::as_seconds(at_time - start_time());
+  const double time = time::as_seconds(time_since(start_time(), at_time));
   return RigidBodyState<SE3>(curve_.point_at(time).right_two_jet());
 }
 
-- 
2.43.0


From fbd052b88743d79e04b01801766335febf920717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 19/21] fix: as_duration overflowed for times at or beyond the
 ends of the representable range

---
 resim/time/timestamp.hh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/resim/time/timestamp.hh b/resim/time/timestamp.hh
index 89dd585..4ca61df 100644
--- a/resim/time/timestamp.hh
+++ b/resim/time/timestamp.hh
@@ -26,8 +26,17 @@ constexpr double as_seconds(const Duration duration) {
   return std::chrono::duration<double>(duration).count();
 }
 
-// Create a duration from seconds as a double
+// Create a duration from seconds as a double. Times beyond the representable
+// range yield the closest representable duration.
 constexpr Duration as_duration(const double t_s) {
+  constexpr double LIMIT_NS = 9223372036854775808.;  // 2^63
+  const double t_ns = t_s * std::nano::den;
+  if (t_ns >= LIMIT_NS) {
+    return Duration::max();
+  }
+  if (t_ns <= -LIMIT_NS) {
+    return Duration::min();
+  }
   return std::chrono::duration_cast<Duration>(
       std::chrono::duration<double>(t_s));
 }
-- 
2.43.0


From 2e5784cb2118e93a27d4a214a7b253e4bd10a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 20/21] fix: refuse to report a trajectory end time that can't
 be represented

---
 resim/actor/state/trajectory.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resim/actor/state/trajectory.cc b/resim/actor/state/trajectory.cc
index 05d9efc..3e9c755 100644
--- a/resim/actor/state/trajectory.cc
+++ b/resim/actor/state/trajectory.cc
@@ -85,7 +85,13 @@ RigidBodyState<SE3> Trajectory::point_at(
 const time::Timestamp &Trajectory::start_time() const { return start_time_; }
 
 time::Timestamp Trajectory::end_time() const {
-  return start_time_ + this->time_duration();
+  int64_t end_ns = 0;
+  const bool overflows = __builtin_add_overflow(
+      int64_t{start_time_.time_since_epoch().count()},
+      int64_t{this->time_duration().count()},
+      &end_ns);
+  REASSERT(not overflows, "The end of the trajectory can't be represented!");
+  return time::Timestamp{time::Duration{end_ns}};
 }
 
 time::Duration Trajectory::time_duration() const {
-- 
2.43.0


From 99f01ae7e5a132dd919e4cc805e025b9644bb640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:13 +0000
Subject: [PATCH 21/21] fix: a session reply without a session ID left the
 client without a session to send to

---
 resim/visualization/client/view_client.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resim/visualization/client/view_client.cc b/resim/visualization/client/view_client.cc
index 07008e1..3a23765 100644
--- a/resim/visualization/client/view_client.cc
+++ b/resim/visualization/client/view_client.cc
@@ -68,6 +68,12 @@ Status ViewClient::send_view_update(const ViewUpdate &update) {
     session_id_.erase(
         std::remove(session_id_.begin(), session_id_.end(), '\n'),
         session_id_.end());
+
+    // We can't send an update to a session without a name.
+    if (session_id_.empty()) {
+      LOG(ERROR) << "Could not create session. No session ID received.";
+      return MAKE_STATUS("Could not create session.");
+    }
   }
 
   // Pack ViewUpdate and serialize to string.
-- 
2.43.0

