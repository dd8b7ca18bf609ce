From d7278020f6f961d8c5c27301a0b3a09e668c0344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:21 +0000
Subject: [PATCH 01/27] fix: upper bound of the product of two intervals that
 both contain zero

The upper bound was computed from a.inf^2 and b.sup^2 instead of the two
products of equal-signed endpoints, e.g. [-1,1]*[-3,1] gave [-3,1] and missed 3.
---
 src/math/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 92e275f..d07f080 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -239,7 +239,7 @@ impl<T: GFloat> std::ops::Mul<Self> for Interval<T> {
             } else {
                 Self::new(
                     (a.inf * b.sup).min(a.sup * b.inf).next_down(),
-                    (a.inf * a.inf).max(b.sup * b.sup).next_up(),
+                    (a.inf * b.inf).max(a.sup * b.sup).next_up(),
                 )
             }
         }
-- 
2.43.0


From d77eff8e2d4a72fb560e2248de297285b6e30520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:21 +0000
Subject: [PATCH 02/27] fix: the f32 upper bound of pi was below pi

pi_upper repeated pi_lower, so Interval::<f32>::pi() did not contain pi.
---
 src/math/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1b97025..c7ff383 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -500,7 +500,7 @@ impl GFloat for f32 {
     }
     #[inline]
     fn pi_upper() -> Self {
-        13176794.0f32 / ((1 << 22) as f32)
+        13176795.0f32 / ((1 << 22) as f32)
     }
     #[inline]
     fn tau_lower() -> Self {
-- 
2.43.0


From c1cfa3b318e89261ec9c7ecf2c7453b53750ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:21 +0000
Subject: [PATCH 03/27] fix: GFloat::is_infinite returned is_finite for f32 and
 f64

---
 src/math/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index c7ff383..5366b99 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -460,7 +460,7 @@ impl GFloat for f32 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
@@ -653,7 +653,7 @@ impl GFloat for f64 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
-- 
2.43.0


From e21b5c17534e3eb9711de61915b9d803dc352c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:21 +0000
Subject: [PATCH 04/27] fix: mapping a normal multiplied its z contribution by
 n.z twice

---
 src/math/transform.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 4b5e6c4..301d80f 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -565,9 +565,9 @@ where
 {
     // normals are mapped by the inverse transpose of the transformation matrix
     Normal3::new(
-        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)] * n.z(),
-        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)] * n.z(),
-        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)] * n.z(),
+        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)],
+        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)],
+        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)],
     )
 }
 
-- 
2.43.0


From 4f3da3ab4d39c26e955110855d234e99039dc5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 05/27] fix: transforming a box accumulated extents on the
 wrong axis

Entry (i, j) of the matrix contributes to output axis i, not j, so any
non-diagonal transform gave a box that did not contain the transformed box.
---
 src/geometry/bbox.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index fa31a65..869c728 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -298,11 +298,11 @@ fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
             let b = m[i][j] * bbox_pmax[j];
 
             if a < b {
-                pmin[j] += a;
-                pmax[j] += b;
+                pmin[i] += a;
+                pmax[i] += b;
             } else {
-                pmin[j] += b;
-                pmax[j] += a;
+                pmin[i] += b;
+                pmax[i] += a;
             }
         }
     }
-- 
2.43.0


From 0c0c64b8eb639445f7764ea52bf7d6f38fc1a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 06/27] fix: PrimitiveList::intersect returned the last hit
 instead of the closest

The shortened ray was computed but never used.
---
 src/geometry/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 9adb447..57424ea 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -151,7 +151,7 @@ impl IntersectsRay for PrimitiveList {
         let mut result = None;
         let mut ray_mut = ray;
         for primitive_handle in self.primitives.iter() {
-            if let Some(intersection_result) = (*primitive_handle).intersect(ray) {
+            if let Some(intersection_result) = (*primitive_handle).intersect(ray_mut) {
                 ray_mut.tmax = intersection_result.t_ray;
                 result = Some(intersection_result);
             }
-- 
2.43.0


From d94420decfb0abd0ac8479232dbe53995074bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 07/27] fix: interval asin and acos were clipped to the wrong
 principal range

asin ranges over [-pi/2, pi/2] and acos over [0, pi]; both were clipped to
[0, pi/2], which lost values or gave an inverted (panicking) interval for
negative arguments.
---
 src/math/interval_as_gfloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 8109230..e5c9d4c 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -135,12 +135,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn asin(self) -> Self {
         self.map_monotonic_inc(T::asin)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(-T::frac_pi_2_upper(), T::frac_pi_2_upper()))
     }
     #[inline]
     fn acos(self) -> Self {
         self.map_monotonic_dec(T::acos)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(T::zero(), T::pi_upper()))
     }
     #[inline]
     fn atan(self) -> Self {
-- 
2.43.0


From 1c062cd98e5a72001a0341a536958cafe223d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 08/27] fix: interval atan2 returned 0 whenever one argument
 was exactly zero

atan2(0, x < 0) is pi and atan2(y, 0) is +-pi/2; only atan2(0, 0) is 0.
The general cases below already handle a single zero argument.
---
 src/math/interval_as_gfloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index e5c9d4c..13c485f 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -151,7 +151,7 @@ impl<T: GFloat> GFloat for Interval<T> {
         let y = self;
         let x = rhs;
 
-        if x.is_zero() || y.is_zero() {
+        if x.is_zero() && y.is_zero() {
             Interval::zero()
         }
         // X >= 0  -> first and fourth quadrants
-- 
2.43.0


From ff61419509d8a8f2740cab83c0add15f9e671ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 09/27] fix: interval sin and cos missed extrema of intervals
 wider than pi

An interval wider than pi whose endpoints lie on the same side of the
extrema contains both a minimum and a maximum but was treated as monotonic.
A derivative of exactly zero at an endpoint (cos at 0) was treated likewise.
For f32 tau() exceeds 2*pi, so a full period could be narrower than it.
---
 src/math/interval_as_gfloat.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 13c485f..e7e3008 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -79,12 +79,17 @@ impl<T: GFloat> GFloat for Interval<T> {
 
     fn sin(self) -> Self {
         let diff = self.sup - self.inf;
-        if diff >= T::tau() {
+        if diff >= T::tau_lower() {
             return Self::new(-T::one(), T::one());
         }
 
         let (cos_inf, cos_sup) = (self.inf.cos(), self.sup.cos());
 
+        // both a minimum and a maximum lie in the interval
+        if diff >= T::pi_lower() && !(cos_inf * cos_sup).is_negative() {
+            return Self::new(-T::one(), T::one());
+        }
+
         // same side
         if cos_inf.signum() == cos_sup.signum() {
             let (t0, t1) = T::min_max(self.inf.sin(), self.sup.sin());
@@ -102,12 +107,17 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     fn cos(self) -> Self {
         let diff = self.sup - self.inf;
-        if diff >= T::tau() {
+        if diff >= T::tau_lower() {
             return Self::new(-T::one(), T::one());
         }
 
         let (sin_inf, sin_sup) = (self.inf.sin(), self.sup.sin());
 
+        // both a minimum and a maximum lie in the interval
+        if diff >= T::pi_lower() && !(sin_inf * sin_sup).is_negative() {
+            return Self::new(-T::one(), T::one());
+        }
+
         // same side
         if sin_inf.signum() == sin_sup.signum() {
             let (t0, t1) = T::min_max(self.inf.cos(), self.sup.cos());
-- 
2.43.0


From 2325f79409a01cc4bd2f312465ac340e0acd0b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 10/27] fix: square root of an interval touching zero was NaN

Widening leaves intervals such as [0,0].square() or [0,1].sqrt() with a lower
bound one ulp below zero, whose square root was NaN (a panic in debug
builds), e.g. for the norm of an interval vector near zero.
---
 src/math/interval.rs           | 6 +++++-
 src/math/interval_as_gfloat.rs | 5 +----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index d07f080..8650690 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -63,7 +63,11 @@ impl<T: GFloat> Interval<T> {
     }
     #[inline]
     pub fn sqrt(self) -> Self {
-        Self::new(self.inf.sqrt().next_down(), self.sup.sqrt().next_up())
+        // adapted from CGAL: only the nonnegative part has a square root
+        Self::new(
+            self.inf.max(T::zero()).sqrt().next_down(),
+            self.sup.sqrt().next_up(),
+        )
     }
     #[inline]
     pub fn approx(self) -> T {
diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index e7e3008..6309a62 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -71,10 +71,7 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn sqrt(self) -> Self {
-        Self::from(T::min_max(
-            self.inf.sqrt().next_down(),
-            self.sup.sqrt().next_up(),
-        ))
+        self.sqrt()
     }
 
     fn sin(self) -> Self {
-- 
2.43.0


From 1455d18c79c4ff619d369102770bc5d3c4391f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 11/27] fix: min_max, clamp and signum of intervals lost values

The scalar defaults assume a total order: overlapping intervals were
returned in arbitrary order by min_max, clamp ignored partial overlap and
signum of an interval of uncertain sign was exactly zero.
---
 src/math/interval.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 8650690..75cd046 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -430,11 +430,23 @@ impl<T: GFloat> Scalar for Interval<T> {
         Self::new(self.inf.min(other.inf), self.sup.min(other.sup))
     }
     #[inline]
+    fn min_max(self, other: Self) -> (Self, Self) {
+        (self.min(other), self.max(other))
+    }
+    #[inline]
+    fn clamp(self, lo: Self, hi: Self) -> Self {
+        self.max(lo).min(hi)
+    }
+    #[inline]
     fn square(self) -> Self {
         self.square()
     }
 }
 impl<T: GFloat> SignedScalar for Interval<T> {
+    #[inline]
+    fn signum(self) -> Self {
+        Self::new(self.inf.signum(), self.sup.signum())
+    }
     #[inline]
     fn abs(self) -> Self {
         if self.inf.is_negative() {
-- 
2.43.0


From c713faa50ed09b1adc5c49e71df3d0007ce60eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 12/27] fix: converting an unrepresentable number to an
 interval lost it

Interval::<f32>::from_f64(0.1) was a point interval not containing 0.1.
---
 src/math/interval_as_gfloat.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 6309a62..d27ade2 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -26,7 +26,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn from_i64(rhs: i64) -> Self {
-        Self::from(T::from_i64(rhs))
+        let t = T::from_i64(rhs);
+        if t.to_i64() == rhs {
+            Self::from(t)
+        } else {
+            Self::from(t).extend_by_ulp()
+        }
     }
     #[inline]
     fn from_f32(rhs: f32) -> Self {
@@ -34,7 +39,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     }
     #[inline]
     fn from_f64(rhs: f64) -> Self {
-        Self::from(T::from_f64(rhs))
+        let t = T::from_f64(rhs);
+        if t.to_f64() == rhs {
+            Self::from(t)
+        } else {
+            Self::from(t).extend_by_ulp()
+        }
     }
     #[inline]
     fn nan() -> Self {
-- 
2.43.0


From 5fedb68299805e051a5e92e02548378795e814ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 13/27] fix: mapping a vector or ray of intervals always
 panicked

The assertion that the vector stays a vector compared an interval widened
around zero with exact zero.
---
 src/math/transform.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 301d80f..2ce2323 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -501,10 +501,9 @@ where
     T: Scalar,
     U: Scalar + Mul<T, Output = U>,
 {
-    assert_eq!(
-        vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)],
-        U::zero()
-    );
+    // compares this way because an interval around zero is not equal to zero
+    let w = vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)];
+    assert!(!(w < U::zero() || w > U::zero()));
     Vector3::new(
         vec.x() * m[(0, 0)] + vec.y() * m[(0, 1)] + vec.z() * m[(0, 2)],
         vec.x() * m[(1, 0)] + vec.y() * m[(1, 1)] + vec.z() * m[(1, 2)],
-- 
2.43.0


From d5baeb331c8a80131a8ce98ea5b7f0e90b73f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 14/27] fix: polar angle of the lower half of a sphere was
 clamped to pi/2

z / radius ranges over [-1, 1]; clamping it to [0, 1] gave wrong surface
coordinates, tangents and normals for everything below the equator.
---
 src/geometry/sphere.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 550ee7a..6e4f317 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -49,8 +49,8 @@ impl Sphere {
     pub fn new(radius: Float, z_min: Float, z_max: Float, phi_max: Float) -> Self {
         assert!(z_min < z_max);
 
-        let theta_min = Float::clamp(z_min / radius, Float::zero(), Float::one()).acos();
-        let theta_max = Float::clamp(z_max / radius, Float::zero(), Float::one()).acos();
+        let theta_min = Float::clamp(z_min / radius, -Float::one(), Float::one()).acos();
+        let theta_max = Float::clamp(z_max / radius, -Float::one(), Float::one()).acos();
 
         Self {
             radius,
@@ -125,7 +125,7 @@ impl IntersectsRay for Sphere {
         let t_ray = intersection_params.t_ray;
         let p = intersection_params.p;
         let phi = intersection_params.phi;
-        let theta = Float::clamp(p.z() / self.radius, Float::zero(), Float::one()).acos();
+        let theta = Float::clamp(p.z() / self.radius, -Float::one(), Float::one()).acos();
 
         let sin_theta = theta.sin();
         let (sin_phi, cos_phi) = phi.sin_cos();
-- 
2.43.0


From 1901fbfe4188d38fffc9a33c9ab51c014ad5c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 15/27] fix: sphere normal was NaN at the poles

---
 src/geometry/sphere.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 6e4f317..2ef81f4 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -6,7 +6,7 @@ use crate::{
     },
     math::{
         scalar::{Float, GFloat, Scalar, SignedScalar},
-        vector::{Point2f, Point3f, Vector3f},
+        vector::{Normal3f, Point2f, Point3f, Vector3f},
     },
 };
 
@@ -157,8 +157,14 @@ impl IntersectsRay for Sphere {
         let dpdv = Vector3f::new(p.z() * cos_phi, p.z() * sin_phi, -self.radius * sin_theta)
             * (theta_max_minus_theta_min);
 
-        let surface_interaction =
-            SurfaceInteraction::new(intersection_params.p, Point2f::new(u, v), dpdu, dpdv);
+        let surface_interaction = SurfaceInteraction {
+            p,
+            // dpdu vanishes at the poles, so don't use the cross product
+            n: Normal3f::from(Vector3f::from(p).normalize()),
+            uv: Point2f::new(u, v),
+            dpdu,
+            dpdv,
+        };
 
         Some(IntersectionResult {
             surface_interaction,
-- 
2.43.0


From 811efafe64a9640ccff4d4b769a0871e562c784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 16/27] fix: sphere area ignored that the azimuth starts at -pi

---
 src/geometry/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 2ef81f4..d3e53f3 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -111,7 +111,7 @@ impl Sphere {
     }
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
-        self.phi_max * self.radius * (self.z_max - self.z_min)
+        (self.phi_max + Float::pi()) * self.radius * (self.z_max - self.z_min)
     }
 }
 
-- 
2.43.0


From 9ba8f40fcb27d587a991125113509bd18188d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 17/27] fix: rays through the poles of an unclipped sphere
 could miss it

A hit rounded to just above z = radius was rejected by z_max = radius.
---
 src/geometry/sphere.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index d3e53f3..dede201 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -87,7 +87,9 @@ impl Sphere {
             // should we refine hitpoint by further projecting it on the sphere?
             let hit_point = ray.eval(t);
 
-            if !hit_point.z().in_range(self.z_min, self.z_max) {
+            // rounding should not push a hit at a pole beyond the poles
+            let z = hit_point.z().max(-self.radius).min(self.radius);
+            if !z.in_range(self.z_min, self.z_max) {
                 return None;
             }
 
-- 
2.43.0


From 42eaac7b669070b007b6605cd658b8424c5952b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 18/27] fix: a transformed primitive reported its hit in object
 space

The point, normal and tangents of the hit were never mapped back to world
space, so they did not lie on the world-space ray or surface.
---
 src/geometry/primitive.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 57424ea..288915b 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -59,6 +59,20 @@ impl SurfaceInteraction {
     }
 }
 
+impl TransformMap<SurfaceInteraction> for Transformf {
+    type Output = SurfaceInteraction;
+
+    fn map(&self, si: SurfaceInteraction) -> Self::Output {
+        SurfaceInteraction {
+            p: self.map(si.p),
+            n: self.map(si.n).normalize(),
+            uv: si.uv,
+            dpdu: self.map(si.dpdu),
+            dpdv: self.map(si.dpdv),
+        }
+    }
+}
+
 pub trait IntersectsRay {
     fn do_intersect(&self, ray: Rayf) -> bool;
     fn intersect(&self, ray: Rayf) -> Option<IntersectionResult>;
@@ -110,7 +124,12 @@ impl<T: Primitive> IntersectsRay for TransformedPrimitive<T> {
     fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
         // note that "t" computed in object space is the same as in world space
         let transformed_ray = self.world_to_object(ray);
-        self.primitive.intersect(transformed_ray)
+        self.primitive
+            .intersect(transformed_ray)
+            .map(|result| IntersectionResult {
+                surface_interaction: self.object_to_world(result.surface_interaction),
+                t_ray: result.t_ray,
+            })
     }
 
     fn do_intersect(&self, ray: Rayf) -> bool {
-- 
2.43.0


From a5e50c995e71462f55c953e078b4ef86bbee1ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 19/27] fix: rays lying in a face of a box missed it on some
 faces

For a ray parallel to a slab and starting on its bounding plane 0/0 gave NaN,
which the min/max chain turned into a miss on the minimum faces (or on the
maximum ones for -0 direction components).
---
 src/geometry/bbox.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index 869c728..cace13a 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -138,8 +138,20 @@ impl Bbox3 {
         let tmin = (self.pmin - ray.origin) / ray.direction;
         let tmax = (self.pmax - ray.origin) / ray.direction;
 
-        let t1 = tmin.min(tmax);
-        let t2 = tmin.max(tmax);
+        let mut t1 = tmin.min(tmax);
+        let mut t2 = tmin.max(tmax);
+
+        // a ray parallel to a slab is either always or never in it; dividing by
+        // zero gives NaN when it lies in one of the bounding planes
+        for i in 0..3 {
+            if ray.direction[i].is_zero() {
+                if ray.origin[i] < self.pmin[i] || ray.origin[i] > self.pmax[i] {
+                    return None;
+                }
+                t1[i] = Float::neg_infinity();
+                t2[i] = Float::infinity();
+            }
+        }
 
         let tnear = t1.x().max(t1.y()).max(t1.z());
         let tfar = t2.x().min(t2.y()).min(t2.z());
-- 
2.43.0


From 39081d3b4e9b04eb346cd1e653012eea5f981f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 20/27] fix: every ray hit an empty box

The slab test reorders the bounds, so the default (empty) box and the
intersection of disjoint boxes were treated as if they were not inverted.
---
 src/geometry/bbox.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index cace13a..9e3252f 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -83,6 +83,10 @@ impl Bbox3 {
             && rhs.z() <= self.zmax()
     }
 
+    fn is_empty(&self) -> bool {
+        self.xmin() > self.xmax() || self.ymin() > self.ymax() || self.zmin() > self.zmax()
+    }
+
     pub fn diagonal(&self) -> Vector3f {
         self.pmax - self.pmin
     }
@@ -134,6 +138,10 @@ impl Bbox3 {
     /// Performs ray-box intersection and returns the intersection period of
     /// the ray
     pub fn intersect_ray(self, ray: Rayf) -> Option<(Float, Float)> {
+        if self.is_empty() {
+            return None;
+        }
+
         // should we store the reciprocal of ray.direction?
         let tmin = (self.pmin - ray.origin) / ray.direction;
         let tmax = (self.pmax - ray.origin) / ray.direction;
-- 
2.43.0


From f5d371af5e02b52113896acec6300519ed62be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 21/27] fix: transforming an empty box gave a box covering
 everything

---
 src/geometry/bbox.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index 9e3252f..01a4ea4 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -304,6 +304,10 @@ impl TransformMap<Bbox3> for Transformf {
 
 #[inline(always)]
 fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
+    if bbox.is_empty() {
+        return Bbox3::default();
+    }
+
     // Graphics Gems: Transforming Axis-aligned Bounding Boxes
     // by James Arvo 1990
     let mut pmin = m.col(3);
-- 
2.43.0


From c359e535058b68b9b29e34066c69a2ddc0bf90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 22/27] fix: the film of the thin lens camera was a quarter of
 the field of view

Half the film subtends half the field of view at the film distance, so the
film is 2 * tan(fov / 2) * film_distance wide.
---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index b5d3887..692ae24 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -56,7 +56,7 @@ impl ThinLensCamera {
         let film_distance = focal_distance * focal_length / (focal_distance - focal_length);
 
         // field of view h
-        let film_width = Float::half() * (fov * Float::half()).tan() * film_distance;
+        let film_width = Float::two() * (fov * Float::half()).tan() * film_distance;
         let film_height = film_width / aspect_ratio;
 
         Self {
-- 
2.43.0


From 725c583a4b85432fbadc4047448afcedf8e9abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 23/27] fix: thin lens rays converged in front of the focal
 plane

The ray starts on the film at z = film_distance, not at the lens, so t was
the parameter at z = film_distance - focal_distance.
---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index 692ae24..2be396d 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -95,7 +95,7 @@ impl Camera for ThinLensCamera {
         );
 
         // find t at z = -focal_distance
-        let t = -self.focal_distance / film_to_lens.direction.z();
+        let t = (-self.focal_distance - p_film.z()) / film_to_lens.direction.z();
         let p_at_focal_plane = film_to_lens.eval(t);
 
         // now the result is a ray passing from p_lens to p_at_focal_plane
-- 
2.43.0


From 0a2f023ac919583cd3b3d386db8a7dd37ec0dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:46 +0000
Subject: [PATCH 24/27] fix: sphere area counts only the surface between the
 poles

---
 src/geometry/sphere.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index dede201..328b352 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -113,7 +113,10 @@ impl Sphere {
     }
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
-        (self.phi_max + Float::pi()) * self.radius * (self.z_max - self.z_min)
+        // z limits beyond the poles don't add any surface
+        let z_min = Float::clamp(self.z_min, -self.radius, self.radius);
+        let z_max = Float::clamp(self.z_max, -self.radius, self.radius);
+        (self.phi_max + Float::pi()) * self.radius * (z_max - z_min)
     }
 }
 
-- 
2.43.0


From 5f69dd18d90c06589ff35dfced27b0ef7a600547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:30 +0000
Subject: [PATCH 25/27] fix: the interval of the largest 64-bit integer did not
 contain it

---
 src/math/interval_as_gfloat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index d27ade2..a9a6f6b 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -27,7 +27,8 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn from_i64(rhs: i64) -> Self {
         let t = T::from_i64(rhs);
-        if t.to_i64() == rhs {
+        // to_i64 saturates, so i64::MAX comes back although it was rounded up
+        if t.to_i64() == rhs && rhs != i64::MAX {
             Self::from(t)
         } else {
             Self::from(t).extend_by_ulp()
-- 
2.43.0


From a33ff85da22b08be00fe45616f7571918dc98ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:15 +0000
Subject: [PATCH 26/27] fix: a ray with nothing in its parameter range hit the
 box around its origin

---
 src/geometry/bbox.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index 01a4ea4..88c731a 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -138,7 +138,7 @@ impl Bbox3 {
     /// Performs ray-box intersection and returns the intersection period of
     /// the ray
     pub fn intersect_ray(self, ray: Rayf) -> Option<(Float, Float)> {
-        if self.is_empty() {
+        if self.is_empty() || ray.tmax < Float::zero() {
             return None;
         }
 
-- 
2.43.0


From 530f8aedff746603f792deae5aa8e294a7fb8d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:10 +0000
Subject: [PATCH 27/27] fix: collapsing an interval of large numbers overflowed

---
 src/math/interval.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 75cd046..39309c5 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -71,7 +71,13 @@ impl<T: GFloat> Interval<T> {
     }
     #[inline]
     pub fn approx(self) -> T {
-        (self.inf + self.sup) * T::half()
+        let sum = self.inf + self.sup;
+        if sum.is_finite() {
+            sum * T::half()
+        } else {
+            // the sum overflows
+            self.inf * T::half() + self.sup * T::half()
+        }
     }
     #[inline]
     pub fn in_range(self, t0: T, t1: T) -> bool {
-- 
2.43.0

