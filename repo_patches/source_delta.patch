From beca4e8bf146aea46550f095ebee8580e1eeba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 01/27] fix: HexadecimalEncoder reads outside of its table for
 characters above 0x7F

---
 base/hexadecimal_body.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/hexadecimal_body.hpp b/base/hexadecimal_body.hpp
index 47bd0cc..b23cada 100644
--- a/base/hexadecimal_body.hpp
+++ b/base/hexadecimal_body.hpp
@@ -107,8 +107,12 @@ void HexadecimalEncoder<null_terminated>::Decode(Array<char const> input,
   for (char const* const input_end = input.data + input.size;
        input.data != input_end;
        input.data += 2, ++output.data) {
-    *output.data = (hexadecimal_digits_to_nibble[*input.data] << 4) |
-                   hexadecimal_digits_to_nibble[*(input.data + 1)];
+    // Beware, `char` may be signed.
+    *output.data =
+        (hexadecimal_digits_to_nibble[static_cast<std::uint8_t>(
+             *input.data)] << 4) |
+        hexadecimal_digits_to_nibble[static_cast<std::uint8_t>(
+            *(input.data + 1))];
   }
 }
 
-- 
2.43.0


From d6905740211d53b17e77dd248c525c757aad5ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:23 +0000
Subject: [PATCH 02/27] fix: Bundle may notify the end of its tasks more than
 once

---
 base/bundle.cpp | 11 ++++++-----
 base/bundle.hpp |  2 ++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/base/bundle.cpp b/base/bundle.cpp
index 5bbef39..6b2f6ff 100644
--- a/base/bundle.cpp
+++ b/base/bundle.cpp
@@ -67,11 +67,12 @@ void Bundle::Toil(Task const& task) {
 
   // No locking, so as to avoid contention during joining.  Note that if
   // `joining_` is true we know that `number_of_active_workers_` cannot
-  // increase.  Reading `number_of_active_workers_` independently from the
-  // decrement would be incorrect as we must ensure that exactly one thread sees
-  // that counter dropping to zero.
-  int const number_of_active_workers = --number_of_active_workers_;
-  if (joining_ && number_of_active_workers == 0) {
+  // increase.  A worker may have seen that counter dropping to zero before
+  // `joining_` became true, and more than one may see it at zero afterwards;
+  // we must ensure that exactly one of them notifies.
+  --number_of_active_workers_;
+  if (joining_ && number_of_active_workers_ == 0 &&
+      !notifying_.exchange(true)) {
     all_done_.Notify();
   }
 }
diff --git a/base/bundle.hpp b/base/bundle.hpp
index bef2bff..4972cb9 100644
--- a/base/bundle.hpp
+++ b/base/bundle.hpp
@@ -59,6 +59,8 @@ class Bundle final {
   // The number of workers currently executing.  Can only be incremented when
   // `joining_` is false.
   std::atomic_int number_of_active_workers_ = 0;
+  // Set by the worker that notifies `all_done_`.
+  std::atomic_bool notifying_ = false;
   std::list<std::thread> workers_ ABSL_GUARDED_BY(lock_);
 
   static_assert(std::atomic_bool::is_always_lock_free, "bool not lock-free");
-- 
2.43.0


From b44a714da48973b07613b7e25d4212840152d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:59 +0000
Subject: [PATCH 03/27] fix: R3x3Matrix::Solve must choose its pivots in the
 reduced matrix, it failed on nonsingular matrices

---
 geometry/r3x3_matrix_body.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/geometry/r3x3_matrix_body.hpp b/geometry/r3x3_matrix_body.hpp
index 227101b..a6daa1e 100644
--- a/geometry/r3x3_matrix_body.hpp
+++ b/geometry/r3x3_matrix_body.hpp
@@ -181,6 +181,14 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
   // Doolittle's method: write P * A = L * U where P is an implicit permutation
   // that is also applied to b.  See [Hig02], Algorithm 9.2 p. 162.
   for (int k = 0; k < 3; ++k) {
+    // Eliminate from column `k` the contributions of the previous pivots: the
+    // pivot must be chosen in the reduced matrix, not in the original one.
+    for (int i = k; i < 3; ++i) {
+      for (int j = 0; j < k; ++j) {
+        A(i, k) -= L(i, j) * U(j, k);
+      }
+    }
+
     // Partial pivoting.
     int r = -1;
     Scalar max{};
@@ -197,7 +205,8 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
     std::swap(b[k], b[r]);
     CHECK_NE(Scalar{}, A(k, k)) << *this << " is singular";
 
-    for (int j = k; j < 3; ++j) {
+    U(k, k) = A(k, k);
+    for (int j = k + 1; j < 3; ++j) {
       Scalar U_kj = A(k, j);
       for (int i = 0; i < k; ++i) {
         U_kj -= L(k, i) * U(i, j);
@@ -205,11 +214,7 @@ R3Element<Quotient<RScalar, Scalar>> R3x3Matrix<Scalar>::Solve(
       U(k, j) = U_kj;
     }
     for (int i = k + 1; i < 3; ++i) {
-      Scalar L_ik = A(i, k);
-      for (int j = 0; j < k; ++j) {
-        L_ik -= L(i, j) * U(j, k);
-      }
-      L(i, k) = L_ik / U(k, k);
+      L(i, k) = A(i, k) / U(k, k);
     }
     L(k, k) = 1;
   }
-- 
2.43.0


From f6a79b8976603f34d0ec658fd3bf8fa6dadf2fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:59 +0000
Subject: [PATCH 04/27] fix: Solve must choose its pivots in the reduced
 matrix, it divided by zero on nonsingular matrices

---
 numerics/matrix_computations_body.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index 26ffc7a..b075028 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -1069,6 +1069,14 @@ Solve(Matrix A, Vector b) {
   // Doolittle's method: write P * A = L * U where P is an implicit permutation
   // that is also applied to b.  See [Hig02], Algorithm 9.2 p. 162.
   for (std::int64_t k = 0; k < A.columns(); ++k) {
+    // Eliminate from column `k` the contributions of the previous pivots: the
+    // pivot must be chosen in the reduced matrix, not in the original one.
+    for (std::int64_t i = k; i < A.rows(); ++i) {
+      for (std::int64_t j = 0; j < k; ++j) {
+        A(i, k) -= L(i, j) * U(j, k);
+      }
+    }
+
     // Partial pivoting.
     std::int64_t r = -1;
     Scalar max{};
@@ -1095,7 +1103,8 @@ Solve(Matrix A, Vector b) {
     LOG_IF(WARNING, A(k, k) == Scalar{})
         << A << " does not have a unique LU decomposition";
 
-    for (std::int64_t j = k; j < A.columns(); ++j) {
+    U(k, k) = A(k, k);
+    for (std::int64_t j = k + 1; j < A.columns(); ++j) {
       auto U_kj = A(k, j);
       for (std::int64_t i = 0; i < k; ++i) {
         U_kj -= L(k, i) * U(i, j);
@@ -1103,11 +1112,7 @@ Solve(Matrix A, Vector b) {
       U(k, j) = U_kj;
     }
     for (std::int64_t i = k + 1; i < A.rows(); ++i) {
-      auto L_ik = A(i, k);
-      for (std::int64_t j = 0; j < k; ++j) {
-        L_ik -= L(i, j) * U(j, k);
-      }
-      L(i, k) = L_ik / U(k, k);
+      L(i, k) = A(i, k) / U(k, k);
     }
     L(k, k) = 1;
   }
-- 
2.43.0


From 7638bd8dd00e219794c5831dd5a0ee4a2ca9978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:01 +0000
Subject: [PATCH 05/27] fix: The difference of a real and a complex number must
 negate the imaginary part

---
 geometry/complexification_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/complexification_body.hpp b/geometry/complexification_body.hpp
index 3305f69..3642cc7 100644
--- a/geometry/complexification_body.hpp
+++ b/geometry/complexification_body.hpp
@@ -110,7 +110,7 @@ Complexification<Difference<L, Vector>> operator-(
     L const& left,
     Complexification<Vector> const& right) {
   return Complexification<Difference<L, Vector>>{left - right.real_part(),
-                                                 right.imaginary_part()};
+                                                 -right.imaginary_part()};
 }
 
 template<typename Vector, typename R>
-- 
2.43.0


From b9cb7edef862490aa642f57e0ffb697a59d97656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 06/27] fix: The Householder reflection of a vector opposite to
 the first axis was not a reflection

---
 numerics/matrix_computations_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index b075028..6702f72 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -59,7 +59,7 @@ HouseholderReflection ComputeHouseholderReflection(Vector const& x) {
   v₁ = 1;
   if (σ == 0) {
     if (x₁ < 0) {
-      result.β = -2;
+      result.β = 2;
     }
   } else {
     static constexpr double μ = 1;
-- 
2.43.0


From dd7b9f08c52d8c2e88d578dc0c4a2ac8c184c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 07/27] =?UTF-8?q?fix:=20The=20derivative=20of=20a=20consta?=
 =?UTF-8?q?nt=20in=20the=20=D0=A7=D0=B5=D0=B1=D1=8B=D1=88=D1=91=D0=B2=20ba?=
 =?UTF-8?q?sis=20read=20outside=20of=20its=20coefficients?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ...0\261\321\213\321\210\321\221\320\262_basis_body.hpp" | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
index ab1efe9..54f57d7 100644
--- "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
+++ "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
@@ -198,8 +198,13 @@ PolynomialInЧебышёвBasis<Value_, Argument_, degree_>::EvaluateDerivative(
     bₖ₊₂ = bₖ₊₁;
     bₖ₊₁ = bₖ;
   }
-  return (coefficients_[1] + two_scaled_argument * bₖ₊₁ - bₖ₊₂) *
-         (one_over_width_ + one_over_width_);
+  if constexpr (degree_ == 0) {
+    // There is no coefficient of T₁.
+    return Derivative<Value, Argument>{};
+  } else {
+    return (coefficients_[1] + two_scaled_argument * bₖ₊₁ - bₖ₊₂) *
+           (one_over_width_ + one_over_width_);
+  }
 }
 
 template<additive_group Value_, affine Argument_, int degree_>
-- 
2.43.0


From 73cff3e02e8fcdba2cc811258ead3085fd14054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:21 +0000
Subject: [PATCH 08/27] =?UTF-8?q?fix:=20The=20companion=20matrix=20of=20an?=
 =?UTF-8?q?=20affine=20function=20in=20the=20=D0=A7=D0=B5=D0=B1=D1=8B?=
 =?UTF-8?q?=D1=88=D1=91=D0=B2=20basis=20had=20half=20its=20root=20as=20its?=
 =?UTF-8?q?=20eigenvalue?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ...320\261\321\213\321\210\321\221\320\262_basis_body.hpp" | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
index 54f57d7..36009ea 100644
--- "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
+++ "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
@@ -254,6 +254,13 @@ PolynomialInЧебышёвBasis<Value_, Argument_, degree_>::FrobeniusCompanionM
   int const N = degree();
   FixedMatrix<double, degree_, degree_> A(uninitialized);
 
+  if constexpr (degree_ == 1) {
+    // The recurrence is x T₀ = T₁, without the factor of 1/2 that applies for
+    // higher degrees.
+    A(0, 0) = -coefficients_[0] / coefficients_[1];
+    return A;
+  }
+
   // j = 1.
   for (int k = 1; k <= N; ++k) {
     auto& Aⱼₖ = A(0, k - 1);
-- 
2.43.0


From 5528d23e3116bddc0c495e2bd7382a88116a68fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:55 +0000
Subject: [PATCH 09/27] fix: The Fourier transform of a piecewise Poisson
 series used stale values after += and -= or when copies were extended
 differently

---
 numerics/piecewise_poisson_series_body.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/numerics/piecewise_poisson_series_body.hpp b/numerics/piecewise_poisson_series_body.hpp
index eea500f..02c470b 100644
--- a/numerics/piecewise_poisson_series_body.hpp
+++ b/numerics/piecewise_poisson_series_body.hpp
@@ -46,6 +46,9 @@ operator+=(PoissonSeries<Value,
                          aperiodic_rdegree, periodic_rdegree> const& right) {
   static_assert(aperiodic_rdegree <= aperiodic_degree_);
   static_assert(periodic_rdegree <= periodic_degree_);
+  // The values at the Gauss-Legendre points are about to change, but not those
+  // of the copies of this object.
+  gauss_legendre_cache_ = nullptr;
   if (addend_.has_value()) {
     addend_.value() += right;
   } else {
@@ -63,6 +66,9 @@ operator-=(PoissonSeries<Value,
                          aperiodic_rdegree, periodic_rdegree> const& right) {
   static_assert(aperiodic_rdegree <= aperiodic_degree_);
   static_assert(periodic_rdegree <= periodic_degree_);
+  // The values at the Gauss-Legendre points are about to change, but not those
+  // of the copies of this object.
+  gauss_legendre_cache_ = nullptr;
   if (addend_.has_value()) {
     addend_.value() -= right;
   } else {
@@ -79,6 +85,11 @@ Append(Interval<Instant> const& interval,
        Series const& series) {
   CHECK_LT(Time{}, interval.measure());
   CHECK_EQ(bounds_.back(), interval.min);
+  // If the cache is shared, the copies of this object may be extended with
+  // different series.
+  if (gauss_legendre_cache_.use_count() > 1) {
+    gauss_legendre_cache_ = nullptr;
+  }
   bounds_.push_back(interval.max);
   series_.push_back(series);
 }
-- 
2.43.0


From 3eb9a9d427b1835fe9db2649b7d0e6611c5f71d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:19 +0000
Subject: [PATCH 10/27] fix: Kepler orbits ignored the sign of the hyperbolic
 anomalies, thus mirrored the state vectors before the periapsis

---
 physics/kepler_orbit_body.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/physics/kepler_orbit_body.hpp b/physics/kepler_orbit_body.hpp
index 7e9e3c8..c53bd2d 100644
--- a/physics/kepler_orbit_body.hpp
+++ b/physics/kepler_orbit_body.hpp
@@ -606,8 +606,9 @@ void KeplerOrbit<Frame>::CompleteAnomalies(KeplerianElements<Frame>& elements) {
         ArcTan(Sqrt(1 - Pow<2>(e)) * sin_ν, e + cos_ν);
     mean_anomaly =
         positive_angle(eccentric_anomaly - e * Sin(eccentric_anomaly) * Radian);
+    // The hyperbolic anomalies are negative before the periapsis.
     Angle const hyperbolic_eccentric_anomaly =
-        ArcCosh((e + cos_ν) / (1 + e * cos_ν));
+        Sign(sin_ν) * ArcCosh((e + cos_ν) / (1 + e * cos_ν));
     hyperbolic_mean_anomaly = e * Sinh(hyperbolic_eccentric_anomaly) * Radian -
                               hyperbolic_eccentric_anomaly;
   } else if (mean_anomaly) {
-- 
2.43.0


From d3f30d923e634b52d8b84a41ec9d53ee12593328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:50 +0000
Subject: [PATCH 11/27] fix: ForgetBefore lost the last segment of a discrete
 trajectory when it shortened the preceding one to the same single point

---
 physics/discrete_trajectory_body.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index c10ada1..8f0d547 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -339,12 +339,11 @@ void DiscreteTrajectory<Frame>::ForgetBefore(Instant const& t) {
   // just have truncated.
   segment_by_left_endpoint_.erase(segment_by_left_endpoint_.begin(),
                                   std::next(leit));
-  // It `*sit` is not empty, recreate an entry with its new left endpoint.
+  // It `*sit` is not empty, recreate an entry with its new left endpoint.  If
+  // `*sit` was reduced to its last point, there may already be an entry for a
+  // later segment that starts at the same time; that entry must be preserved.
   if (!sit->empty()) {
-    segment_by_left_endpoint_.insert_or_assign(
-        segment_by_left_endpoint_.begin(),
-        sit->front().time,
-        sit);
+    segment_by_left_endpoint_.emplace(sit->front().time, sit);
   }
 
   CHECK_OK(ConsistencyStatus());
-- 
2.43.0


From e96f4585c9251755ba3dd034d2c556e93974bbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:20 +0000
Subject: [PATCH 12/27] fix: AttachSegments lost the time-to-segment entry of
 the second segment when prepending to a 1-point segment

---
 physics/discrete_trajectory_body.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index 8f0d547..04ce0d2 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -216,11 +216,14 @@ DiscreteTrajectory<Frame>::AttachSegments(DiscreteTrajectory trajectory) {
     // and update the time-to-segment map.
     CHECK_LT(back().time, trajectory.front().time)
         << "Mismatching times when attaching segments";
-    trajectory.segments_->begin()->Prepend(back().time,
-                                           back().degrees_of_freedom);
+    auto const sit = trajectory.segments_->begin();
+    sit->Prepend(back().time, back().degrees_of_freedom);
+    // If `*sit` was a 1-point segment, the first entry may be for a segment that
+    // follows it and that didn't change.
     auto const leit = trajectory.segment_by_left_endpoint_.cbegin();
-    auto const sit = leit->second;
-    trajectory.segment_by_left_endpoint_.erase(leit);
+    if (leit->second == sit) {
+      trajectory.segment_by_left_endpoint_.erase(leit);
+    }
     trajectory.segment_by_left_endpoint_.emplace(back().time, sit);
   }
 
-- 
2.43.0


From 672aa16a55053e06a5567fd2d901170551e00476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:29 +0000
Subject: [PATCH 13/27] fix: Splicing segments that start with empty ones
 dereferenced the end of an empty segment

---
 physics/discrete_trajectory_body.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index 04ce0d2..eb8eeaa 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -912,8 +912,16 @@ void DiscreteTrajectory<Frame>::AdjustAfterSplicing(
 
   // Copy the time-to-segment entries on or after the time of `to_segment_begin`
   // from `from` to `to`.  We are sure to copy all the entries we need because
-  // it includes the last segment that starts at that time.
-  auto from_leit = from.FindSegment(to_segments_begin->front().time);
+  // it includes the last segment that starts at that time.  The empty segments
+  // have no entries.
+  auto const to_first_nonempty_segment =
+      std::find_if(to_segments_begin,
+                   to.segments_->end(),
+                   [](auto const& segment) { return !segment.empty(); });
+  if (to_first_nonempty_segment == to.segments_->end()) {
+    return;
+  }
+  auto from_leit = from.FindSegment(to_first_nonempty_segment->front().time);
   for (auto leit = from_leit;
        leit != from.segment_by_left_endpoint_.end();
        ++leit) {
-- 
2.43.0


From 81cad6ca71d8f3e7487b4651ff1b24a03c8a5f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:51 +0000
Subject: [PATCH 14/27] fix: Merging segments lost the downsampling error, thus
 the merged segment could exceed its tolerance

---
 physics/discrete_trajectory_segment_body.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/physics/discrete_trajectory_segment_body.hpp b/physics/discrete_trajectory_segment_body.hpp
index b15a8f2..b306d37 100644
--- a/physics/discrete_trajectory_segment_body.hpp
+++ b/physics/discrete_trajectory_segment_body.hpp
@@ -492,6 +492,7 @@ void DiscreteTrajectorySegment<Frame>::Merge(
     return;
   } else if (timeline_.empty()) {
     downsampling_parameters_ = segment.downsampling_parameters_;
+    downsampling_error_ = segment.downsampling_error_;
     timeline_ = std::move(segment.timeline_);
   } else if (auto const [this_crbegin, segment_begin] =
                  std::pair{std::prev(timeline_.cend()),
@@ -511,6 +512,12 @@ void DiscreteTrajectorySegment<Frame>::Merge(
 #endif
     Instant const segment_begin_time = segment_begin->time;
     downsampling_parameters_ = segment.downsampling_parameters_;
+    if (segment.timeline_.size() > 1) {
+      downsampling_error_ = segment.downsampling_error_;
+    } else if (this_crbegin->time < segment_begin->time) {
+      // The last interpolation is the one that we compute below.
+      downsampling_error_ = Length{};
+    }
     timeline_.merge(segment.timeline_);
     // There may not be an interpolation at `segment_begin_time` (there may be
     // one if the segments have a common time, though). (Re)compute it, but
-- 
2.43.0


From cda48df205b1be4fce3f2f89e7fc1758aad5d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:01 +0000
Subject: [PATCH 15/27] fix: Reading a discrete trajectory lost the
 downsampling error, thus it could exceed its tolerance afterwards

---
 physics/discrete_trajectory_segment_body.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/physics/discrete_trajectory_segment_body.hpp b/physics/discrete_trajectory_segment_body.hpp
index b306d37..2f5afd5 100644
--- a/physics/discrete_trajectory_segment_body.hpp
+++ b/physics/discrete_trajectory_segment_body.hpp
@@ -312,6 +312,10 @@ DiscreteTrajectorySegment<Frame>::ReadFromMessage(
     segment.downsampling_parameters_ = DownsamplingParameters::ReadFromMessage(
         message.downsampling_parameters());
   }
+  if (timeline_size > 1) {
+    segment.downsampling_error_ =
+        segment.timeline_.crbegin()->interpolation->error;
+  }
 
   return segment;
 }
-- 
2.43.0


From a7abf4fc655f7532b0ac10dbc6f8e864ae668740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:18 +0000
Subject: [PATCH 16/27] fix: Writing an empty range of a discrete trajectory
 produced a message that could not be read

---
 physics/discrete_trajectory_body.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index eb8eeaa..b6bcc76 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -560,9 +560,9 @@ void DiscreteTrajectory<Frame>::WriteToMessage(
       break;
     }
 
-    // If `*sit` contains a point at or after `begin_time`, it intersects the
-    // range to write.
-    intersect_range = begin_time_it != sit->end();
+    // If `*sit` contains a point at or after `begin_time` and before `end_time`,
+    // it intersects the range to write.
+    intersect_range = begin_time_it != end_time_it;
     if (intersect_range) {
       intersecting_segments.insert(&*sit);
     }
-- 
2.43.0


From 97a313e139b9777b002c6f0713e43a67a6b9b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:56 +0000
Subject: [PATCH 17/27] fix: The checkpointer used iterators after releasing
 its lock, when another thread may have invalidated them

---
 physics/checkpointer_body.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/physics/checkpointer_body.hpp b/physics/checkpointer_body.hpp
index 1635eb9..f854d73 100644
--- a/physics/checkpointer_body.hpp
+++ b/physics/checkpointer_body.hpp
@@ -215,15 +215,16 @@ template<typename Message>
 absl::Status Checkpointer<Message>::ReadFromCheckpointAt(
     Instant const& t,
     Reader const& reader) const {
-  typename CheckpointsByTime::const_iterator it;
+  typename Message::Checkpoint const* checkpoint = nullptr;
   {
     absl::ReaderMutexLock l(&lock_);
-    it = checkpoints_.find(t);
+    auto const it = checkpoints_.find(t);
     if (it == checkpoints_.end()) {
       return absl::NotFoundError("No checkpoint found");
     }
+    checkpoint = it->second.get();
   }
-  return reader(*it->second);
+  return reader(*checkpoint);
 }
 
 template<typename Message>
@@ -294,8 +295,10 @@ void Checkpointer<Message>::WriteToCheckpointLocked(Instant const& t) {
       t,
       google::protobuf::Arena::MakeUnique<typename Message::Checkpoint>(
           &arena_));
+  // The iterator may be invalidated as soon as the lock is released.
+  auto* const checkpoint = it->second.get();
   lock_.Unlock();
-  writer_(it->second.get());
+  writer_(checkpoint);
   lock_.Lock();
 }
 
-- 
2.43.0


From 3061979d45cfa25e92418571bff0e203b39c664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:56 +0000
Subject: [PATCH 18/27] fix: Clientele::first returned a reference to a key
 which another thread could erase

---
 physics/clientele.hpp      | 2 +-
 physics/clientele_body.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/physics/clientele.hpp b/physics/clientele.hpp
index c1520c0..94be37d 100644
--- a/physics/clientele.hpp
+++ b/physics/clientele.hpp
@@ -26,7 +26,7 @@ class Clientele {
   void Leave(Key const& key);
 
   // Returns the smallest key of all clients currently in this object.
-  Key const& first() const;
+  Key first() const;
 
  private:
   Key const default_key_;
diff --git a/physics/clientele_body.hpp b/physics/clientele_body.hpp
index 5917bfb..bef3e18 100644
--- a/physics/clientele_body.hpp
+++ b/physics/clientele_body.hpp
@@ -26,7 +26,7 @@ void Clientele<Key>::Leave(Key const& key) {
 }
 
 template<typename Key>
-Key const& Clientele<Key>::first() const {
+Key Clientele<Key>::first() const {
   absl::MutexLock l(&lock_);
   if (auto const it = clients_.begin(); it == clients_.end()) {
     return default_key_;
-- 
2.43.0


From df6c207ade716e785b838466f45b299cb179d0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:24 +0000
Subject: [PATCH 19/27] fix: correct a transposed coefficient a'[3][1] of
 Fine1987RKNG34

---
 integrators/methods.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/integrators/methods.hpp b/integrators/methods.hpp
index a14c7c0..25142aa 100644
--- a/integrators/methods.hpp
+++ b/integrators/methods.hpp
@@ -557,7 +557,7 @@ struct Fine1987RKNG34 : EmbeddedExplicitGeneralizedRungeKuttaNyström {
   static constexpr FixedStrictlyLowerTriangularMatrix<double, stages> aʹ{{
       {  2 /     9.0,
          1 /    12.0,    1 /   4.0,
-        69 /   128.0, -234 / 128.0, 135 /    64.0,
+        69 /   128.0, -243 / 128.0, 135 /    64.0,
        -17 /    12.0,   27 /   4.0, -27 /     5.0, 16 /    15.0}}};
   static constexpr FixedVector<double, stages> b̂{{
       { 19 /   180.0,    0        ,  63 /   200.0, 16 /   225.0,   1 / 120.0}}};
-- 
2.43.0


From 74e3351de1d051a966fe47f58f3cb602a4128382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:01 +0000
Subject: [PATCH 20/27] fix: with an inexact last step, backward integration
 stopped before its first step

---
 ...eneralized_runge_kutta_nystr\303\266m_integrator_body.hpp" | 4 +++-
 integrators/embedded_explicit_runge_kutta_integrator_body.hpp | 4 +++-
 ...d_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
index b06962d..003723d 100644
--- "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -229,7 +229,9 @@ absl::Status EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && t.value + (t.error + h) > t_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * ((t.value + (t.error + h)) - t_final) >
+            Time{}) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
diff --git a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
index 1b531f3..4de70e3 100644
--- a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
+++ b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
@@ -227,7 +227,9 @@ Solve(typename ODE::IndependentVariable const& s_final) {
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && s.value + (s.error + h) > s_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * ((s.value + (s.error + h)) - s_final) >
+            IndependentVariableDifference{}) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
diff --git "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
index 05b85a1..28c698a 100644
--- "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -221,7 +221,9 @@ Instance::Solve(Instant const& t_final) {
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && t.value + (t.error + h) > t_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * ((t.value + (t.error + h)) - t_final) >
+            Time{}) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
-- 
2.43.0


From 302062d21fa4c1b577195fb1924179c8bc0b4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:01 +0000
Subject: [PATCH 21/27] fix: a copy of a multistep integrator instance acted on
 the original while starting

---
 integrators/explicit_linear_multistep_integrator.hpp   |  2 ++
 .../explicit_linear_multistep_integrator_body.hpp      |  7 +++++++
 integrators/starter.hpp                                |  4 ++++
 integrators/starter_body.hpp                           | 10 ++++++++++
 integrators/symmetric_linear_multistep_integrator.hpp  |  2 ++
 .../symmetric_linear_multistep_integrator_body.hpp     |  7 +++++++
 6 files changed, 32 insertions(+)

diff --git a/integrators/explicit_linear_multistep_integrator.hpp b/integrators/explicit_linear_multistep_integrator.hpp
index 68d684a..bf1923b 100644
--- a/integrators/explicit_linear_multistep_integrator.hpp
+++ b/integrators/explicit_linear_multistep_integrator.hpp
@@ -80,6 +80,8 @@ class ExplicitLinearMultistepIntegrator
              AppendState const& append_state,
              IndependentVariableDifference const& step,
              ExplicitLinearMultistepIntegrator const& integrator);
+    // The copy has its own starter, which acts on the copy.
+    Instance(Instance const& other);
 
     Starter starter_;
     ExplicitLinearMultistepIntegrator const& integrator_;
diff --git a/integrators/explicit_linear_multistep_integrator_body.hpp b/integrators/explicit_linear_multistep_integrator_body.hpp
index 019c536..1814f50 100644
--- a/integrators/explicit_linear_multistep_integrator_body.hpp
+++ b/integrators/explicit_linear_multistep_integrator_body.hpp
@@ -176,6 +176,13 @@ ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
       starter_(integrator.startup_integrator_, startup_step_divisor, this),
       integrator_(integrator) {}
 
+template<typename Method, typename ODE_>
+ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
+    Instance const& other)
+    : FixedStepSizeIntegrator<ODE>::Instance(other),
+      starter_(other.starter_, this),
+      integrator_(other.integrator_) {}
+
 template<typename Method, typename ODE_>
 ExplicitLinearMultistepIntegrator<Method, ODE_>::
 ExplicitLinearMultistepIntegrator(
diff --git a/integrators/starter.hpp b/integrators/starter.hpp
index 9b315e2..c947402 100644
--- a/integrators/starter.hpp
+++ b/integrators/starter.hpp
@@ -28,6 +28,10 @@ class Starter {
           std::int64_t startup_step_divisor,
           not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> instance);
 
+  // Constructs a starter with the same data as `other`, but for `instance`.
+  Starter(Starter const& other,
+          not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> instance);
+
   // Performs the startup integration, i.e., computes enough states to either
   // reach `s_final` or to reach a point where `instance.previous_steps_` has
   // `order - 1` elements.  During startup `instance.current_state_` is
diff --git a/integrators/starter_body.hpp b/integrators/starter_body.hpp
index 32cedd6..0fa7448 100644
--- a/integrators/starter_body.hpp
+++ b/integrators/starter_body.hpp
@@ -20,6 +20,16 @@ Starter<ODE, Step, steps>::Starter(
       startup_step_divisor_(startup_step_divisor),
       instance_(instance) {}
 
+template<typename ODE, typename Step, int steps>
+Starter<ODE, Step, steps>::Starter(
+    Starter const& other,
+    not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> const instance)
+    : startup_integrator_(other.startup_integrator_),
+      startup_step_divisor_(other.startup_step_divisor_),
+      instance_(instance),
+      startup_step_index_(other.startup_step_index_),
+      previous_steps_(other.previous_steps_) {}
+
 template<typename ODE, typename Step, int steps>
 void Starter<ODE, Step, steps>::Solve(
     typename ODE::IndependentVariable const& s_final) {
diff --git a/integrators/symmetric_linear_multistep_integrator.hpp b/integrators/symmetric_linear_multistep_integrator.hpp
index dac4ebf..ff07a37 100644
--- a/integrators/symmetric_linear_multistep_integrator.hpp
+++ b/integrators/symmetric_linear_multistep_integrator.hpp
@@ -101,6 +101,8 @@ class SymmetricLinearMultistepIntegrator
              AppendState const& append_state,
              Time const& step,
              SymmetricLinearMultistepIntegrator const& integrator);
+    // The copy has its own starter, which acts on the copy.
+    Instance(Instance const& other);
 
     // Performs the velocity computation using the Cohen-Hubbard-Oesterwinter
     // method based on the accelerations computed by the main integrator.
diff --git a/integrators/symmetric_linear_multistep_integrator_body.hpp b/integrators/symmetric_linear_multistep_integrator_body.hpp
index d36f069..a1ef995 100644
--- a/integrators/symmetric_linear_multistep_integrator_body.hpp
+++ b/integrators/symmetric_linear_multistep_integrator_body.hpp
@@ -278,6 +278,13 @@ SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
       starter_(integrator.startup_integrator_, startup_step_divisor, this),
       integrator_(integrator) {}
 
+template<typename Method, typename ODE_>
+SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
+    Instance const& other)
+    : FixedStepSizeIntegrator<ODE>::Instance(other),
+      starter_(other.starter_, this),
+      integrator_(other.integrator_) {}
+
 template<typename Method, typename ODE_>
 void SymmetricLinearMultistepIntegrator<Method, ODE_>::
 Instance::ComputeVelocityUsingCohenHubbardOesterwinter() {
-- 
2.43.0


From aaa8e303bf77708a56d7ae13232758bb085d4aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:32 +0000
Subject: [PATCH 22/27] fix: accept negative years in dates with an ordinal

The digits were not made positive before being split, so that the representation
of a date with a negative year and an ordinal was always rejected.
---
 astronomy/date_time_body.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 0bbb525..56354a6 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -112,10 +112,11 @@ constexpr Date Date::YYYYMMDD(
 constexpr Date Date::YYYYDDD(
     std::int64_t const digits,
     std::optional<_date_time::Calendar> const calendar) {
+  auto const abs_digits = digits < 0 ? -digits : digits;
   auto const sign = digits < 0 ? -1 : 1;
-  CONSTEXPR_CHECK(digits <= 9999'999);
-  return Date::Ordinal(sign * digit_range(digits, 3, 7),
-                       digit_range(digits, 0, 3),
+  CONSTEXPR_CHECK(abs_digits <= 9999'999);
+  return Date::Ordinal(sign * digit_range(abs_digits, 3, 7),
+                       digit_range(abs_digits, 0, 3),
                        calendar);
 }
 
-- 
2.43.0


From edf01aa3e0c03f905007948178bfe986acc1f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:32 +0000
Subject: [PATCH 23/27] fix: reject calendar dates that contain a W

A string with 8 digits and a W anywhere, such as 2004W0229, is not one of the
documented representations.
---
 astronomy/date_time_body.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 56354a6..7e470ba 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -637,6 +637,7 @@ constexpr Date DateParser::ToDate(std::optional<Calendar> const calendar,
                                   bool const negative) const {
   auto const signed_digits = negative ? -digits_ : digits_;
   if (digit_count_ == 8) {
+    CONSTEXPR_CHECK(!has_w_);
     CONSTEXPR_CHECK(hyphens_ == 0 ||
                     (hyphens_ == 2 &&
                      first_hyphen_index_ == 4 &&
-- 
2.43.0


From e1f1aa8dd040e6c00e94231953f552915d1fd12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:32 +0000
Subject: [PATCH 24/27] fix: Julian date of proleptic Gregorian dates in
 negative centuries

The number of centuries was truncated towards 0, so that the Julian date was off
by one for the centennial years -100, -200 and -300 modulo 400.
---
 astronomy/date_time_body.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 7e470ba..0124258 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -228,8 +228,9 @@ constexpr double Date::jd() const {
   if (calendar_ == Calendar::Julian) {
      B = 0;
   } else {
-    double const A = static_cast<std::int64_t>(Y / 100);
-    B = 2 - A + static_cast<std::int64_t>(A / 4);
+    // Round towards -∞, the proleptic years may be negative.
+    double const A = (Y - mod(Y, 100)) / 100;
+    B = 2 - A + (A - mod(A, 4)) / 4;
   }
   return static_cast<std::int64_t>(365.25 * (Y + 4716)) +
          static_cast<std::int64_t>(30.6001 * (M + 1)) + D + B - 1524.5;
-- 
2.43.0


From 20b1cc4a17d4de890cb86834b2523f6dca51afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:59 +0000
Subject: [PATCH 25/27] fix: accept milliseconds in the last minute before a
 negative leap of UTC

Only the end of the last second of the day is removed by the leap, not the end
of each second of the last minute.
---
 astronomy/time_scales_body.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astronomy/time_scales_body.hpp b/astronomy/time_scales_body.hpp
index f07ac4c..727f332 100644
--- a/astronomy/time_scales_body.hpp
+++ b/astronomy/time_scales_body.hpp
@@ -218,6 +218,7 @@ constexpr bool IsValidStretchyUTCIfOnDayOfNegativeLeap(DateTime const& utc,
   return utc.date().next_day() != next_day ||
          utc.time().hour() < 23 ||
          utc.time().minute() < 59 ||
+         utc.time().second() < 59 ||
          utc.time().millisecond() < 1000 - milliseconds;
 }
 
-- 
2.43.0


From e3e3d20a637cd4fc538dde46720a6ae41fd23046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:59 +0000
Subject: [PATCH 26/27] fix: don't read past the end of EOP C04

A UT1 given as a Julian date, or the Earth rotation angle, after the last entry
was interpolated using whatever follows the table.
---
 astronomy/time_scales_body.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/astronomy/time_scales_body.hpp b/astronomy/time_scales_body.hpp
index 727f332..d0a00d3 100644
--- a/astronomy/time_scales_body.hpp
+++ b/astronomy/time_scales_body.hpp
@@ -423,6 +423,7 @@ constexpr Instant ExperimentalEOPC02ToEOPC04(ExperimentalEOPC02Entry const& low,
 }
 
 constexpr Instant FromUT1(Time const ut1) {
+  CONSTEXPR_CHECK(ut1 < eop_c04.back().ut1());
   if (ut1 < eop_c04.front().ut1()) {
     if ((LookupInExperimentalEOPC02(ut1) + 1)->ut1_mjd >
         mjd(eop_c04.front().ut1())) {
@@ -441,6 +442,8 @@ constexpr Instant FromUT1(Time const ut1) {
 constexpr Angle EarthRotationAngle(Instant const tt) {
   CONSTEXPR_CHECK(tt >= eop_c04.front().tt())
       << "EarthRotationAngle is not implemented before 1962.";
+  CONSTEXPR_CHECK(tt < eop_c04.back().tt())
+      << "EarthRotationAngle is not implemented after the end of EOP C04.";
 
   int ut1_julian_day_number_minus_2451545{};
   double const ut1_julian_day_fraction = InterpolatedEOPC04JulianDayFraction(
-- 
2.43.0


From 1431ffb1647bacb8828b969e3e8b0676d6af6ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:51 +0000
Subject: [PATCH 27/27] =?UTF-8?q?fix:=20the=20time=20of=20half=20=CE=94v?=
 =?UTF-8?q?=20of=20a=20null=20man=C5=93uvre=20without=20thrust=20is=20not?=
 =?UTF-8?q?=20NaN?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 "ksp_plugin/man\305\223uvre_body.hpp" | 4 ++++
 1 file changed, 4 insertions(+)

diff --git "a/ksp_plugin/man\305\223uvre_body.hpp" "b/ksp_plugin/man\305\223uvre_body.hpp"
index e4ed38f..dfc318a 100644
--- "a/ksp_plugin/man\305\223uvre_body.hpp"
+++ "b/ksp_plugin/man\305\223uvre_body.hpp"
@@ -250,6 +250,10 @@ Mass Manœuvre<InertialFrame, Frame>::final_mass() const {
 
 template<typename InertialFrame, typename Frame>
 Time Manœuvre<InertialFrame, Frame>::time_to_half_Δv() const {
+  if (duration() == Time()) {
+    // As above, `thrust()` may vanish.
+    return Time();
+  }
   return specific_impulse() * initial_mass_*
          (1 - std::sqrt(final_mass() / initial_mass_)) / thrust();
 }
-- 
2.43.0

