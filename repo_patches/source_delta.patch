From 43e2bcaa5f2ba220391e4d4865d38659248130ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 01/17] fix: Matrix33::inverse took the affine shortcut for
 non-affine matrices

The shortcut was taken whenever the last column was merely not positive
(no abs()), and it divided the whole adjugate, including the constant 1
in the corner, by the 2x2 determinant. diag(2, 2, 1) inverted to
diag(0.5, 0.5, 0.25). Follow Imath: exact test, divide only the 2x2 part.
---
 src/math.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 5e45db9..5b34da2 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -267,7 +267,7 @@ where
 
     /// Matrix inverse
     pub fn inverse(self) -> Option<Matrix33<T>> {
-        if self[0][2] > T::epsilon() || self[1][2] > T::epsilon() || (self[2][2] - T::one()).abs() > T::epsilon() {
+        if self[0][2] != T::zero() || self[1][2] != T::zero() || self[2][2] != T::one() {
             let mut mtx_s = Matrix33::new([
                 self[1][1] * self[2][2] - self[2][1] * self[1][2],
                 self[2][1] * self[0][2] - self[0][1] * self[2][2],
@@ -314,16 +314,20 @@ where
             let r = self[0][0] * self[1][1] - self[1][0] * self[0][1];
 
             if r.abs() >= T::one() {
-                for s in mtx_s.x.iter_mut() {
-                    *s /= r;
+                for i in 0..2 {
+                    for j in 0..2 {
+                        mtx_s[i][j] /= r;
+                    }
                 }
             } else {
                 let mr = r.abs() / T::min_positive_value();
-                for s in mtx_s.x.iter_mut() {
-                    if mr > s.abs() {
-                        *s /= r;
-                    } else {
-                        return None;
+                for i in 0..2 {
+                    for j in 0..2 {
+                        if mr > mtx_s[i][j].abs() {
+                            mtx_s[i][j] /= r;
+                        } else {
+                            return None;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 862edc27bfe5bcc604996381e66b9ca09558b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 02/17] fix: Matrix33::gj_inverse pivoted on the original
 matrix

Pivots must be chosen from the partially eliminated matrix, as in Imath.
Invertible matrices such as [1 1 0; 1 1 1; 0 1 1] produced NaN.
---
 src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 5b34da2..5357a4e 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -199,10 +199,10 @@ where
         // Forward elimination
         for i in 0..2 {
             let mut pivot = i;
-            let mut pivot_size: T = self[i][i].abs();
+            let mut pivot_size: T = mtx_t[i][i].abs();
 
             for j in (i + 1)..3 {
-                let tmp = self[j][i].abs();
+                let tmp = mtx_t[j][i].abs();
                 if tmp > pivot_size {
                     pivot = j;
                     pivot_size = tmp;
-- 
2.43.0


From 7f3ad440f6f9624293cdf3e0955efddc8330216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 03/17] fix: xyz_slice_to_rgb_avx_planes left remainder
 elements unconverted

The scalar tail started at len - num_iters instead of after the last full
vector, so e.g. planes of 7 elements came back as all zeros.
---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 9c42ab8..e2652b3 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -98,7 +98,7 @@ pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
     let num_iters = xs.len() / S::VF32_WIDTH;
-    let start_remaining = xs.len() - num_iters;
+    let start_remaining = num_iters * S::VF32_WIDTH;
 
     let m0 = unsafe { S::set1_ps(mtx.x[0]) };
     let m1 = unsafe { S::set1_ps(mtx.x[1]) };
-- 
2.43.0


From ad69e7d3cd3149a1d834b4715000b1f6d95cbf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 04/17] fix: xyz_slice_to_rgb_avx_planes read out of bounds on
 short planes

It is a safe function that loads ys and zs with get_unchecked up to
xs.len(); reject planes of different lengths.
---
 src/transform.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transform.rs b/src/transform.rs
index e2652b3..96a52d5 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -94,6 +94,7 @@ where
 
 #[cfg(all(target_arch = "x86_64", target_feature = "avx"))]
 pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys: &[f32], zs: &[f32]) -> (Vec<f32>, Vec<f32>, Vec<f32>) {
+    assert!(ys.len() == xs.len() && zs.len() == xs.len(), "planes must have the same length");
     let mut result_r = vec![0.0f32; xs.len()];
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
-- 
2.43.0


From a5d92b2cf72402a7fb3a1409d0e13210182c77a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 05/17] fix: VSPD ignored the last gap when classifying its
 interval

Samples at 380, 400 and 450nm were reported as uniform with a 20nm
interval.
---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 6c82bfa..62218e4 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -439,7 +439,7 @@ fn calculate_interval(samples: &[Sample]) -> Interval<f64> {
         panic!("Must have at least 2 samples");
     }
     let assumed_interval = samples[1].nm - samples[0].nm;
-    for i in 1..samples.len() - 1 {
+    for i in 1..samples.len() {
         // This is safe because we guarantee we're in bounds in the for loop
         let interval = unsafe { samples.get_unchecked(i).nm - samples.get_unchecked(i - 1).nm };
         if !interval.approx_eq(assumed_interval, F64Margin { ulps: 2, epsilon: 1.0e-11 }) {
-- 
2.43.0


From 546855e5306bff30907f3d5ebcfe3621ae0ed0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 06/17] fix: SpdShape dropped its end wavelength to rounding

SpdShape::new(400.0, 400.7, 0.1) had only 7 samples, because
(400.7 - 400.0) / 0.1 rounds to just under 7.
---
 src/vspd.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 62218e4..6d46b1e 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -77,13 +77,30 @@ where
         };
         SpdShapeIterator::<T> {
             current: 0,
-            end: ((self.end - self.start) / interval).to_usize().unwrap() + 1,
+            end: self.num_intervals(interval).to_usize().unwrap() + 1,
             start: self.start,
             interval,
         }
     }
 }
 
+impl<T> SpdShape<T>
+where
+    T: SpdElement,
+{
+    /// Number of whole intervals between `start` and `end`, allowing for the
+    /// rounding of the wavelengths themselves
+    fn num_intervals(&self, interval: T) -> T {
+        let n = (self.end - self.start) / interval;
+        let tolerance = T::from(4.0).unwrap() * T::epsilon() * self.start.abs().max(self.end.abs()) / interval;
+        if (n - n.round()).abs() <= tolerance {
+            n.round()
+        } else {
+            n.floor()
+        }
+    }
+}
+
 pub struct SpdShapeIterator<T>
 where
     T: SpdElement,
@@ -224,7 +241,7 @@ impl VSPD {
                 panic!("Cannot create a VSPD with varying interval");
             }
         };
-        let num_samples_from_shape = ((shape.end - shape.start) / interval) as usize + 1;
+        let num_samples_from_shape = shape.num_intervals(interval) as usize + 1;
         if num_samples_from_shape != values.len() {
             panic!(
                 "Length of values slice did not match requested shape. SpdShape has {} samples, but values slice had {} values.",
-- 
2.43.0


From d87e2ecffc4431941f4f2f20d96ad8b7f5579e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 07/17] fix: VSPD::align did not sample the requested shape

When the SPD's own boundaries were not on the requested grid the result
mixed two grids (375, 380, 390, ... for 375..490 by 10), so aligned SPDs
were zipped against each other at different wavelengths. Aligning to a
shape disjoint from the SPD panicked.
---
 src/vspd.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 6d46b1e..2f86185 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -330,7 +330,23 @@ impl VSPD {
     /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by first
     /// interpolating then extrapolating
     pub fn align(&self, shape: SpdShape<f64>) -> VSPD {
-        self.interpolate(shape).extrapolate(shape)
+        let interp = InterpolatorSprague::<f64>::new(self);
+        let extrap = ExtrapolatorConstant::new(self);
+        let first = self.first().nm;
+        let last = self.last().nm;
+        let samples = shape
+            .iter()
+            .map(|nm| {
+                let v = if nm < first || nm > last {
+                    extrap.evaluate(nm)
+                } else {
+                    interp.evaluate(nm)
+                };
+                Sample::new(nm, v)
+            })
+            .collect();
+
+        VSPD { samples, shape }
     }
 
     /// Create a new VSPD by extrapolating the boundaries of the domain of this
-- 
2.43.0


From 5520f49a075c718d8626ba4fb2c13e8f71238ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 08/17] fix: VSPD::extrapolate returned an SPD that contradicts
 its shape

The shape was the requested one even if the samples reached further, and
boundaries that are not a whole number of intervals away left an irregular
gap inside an SPD reported as uniform (325, 345, 365, 380, ...).
---
 src/vspd.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 2f86185..7aff05b 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -359,9 +359,6 @@ impl VSPD {
     pub fn extrapolate(&self, shape: SpdShape<f64>) -> VSPD {
         let extrap = ExtrapolatorConstant::new(self);
         let mut samples = Vec::<Sample>::new();
-        let start = self.start().min(shape.start);
-        let end = self.end().max(shape.end);
-        let mut x = start;
 
         // use this SPD's interval unless it's varying, in which case use the
         // given shape's interval. If that is also varying, panic
@@ -375,20 +372,28 @@ impl VSPD {
             },
         };
 
-        while x < self.start() {
+        // step outwards from our own samples so that the spacing is preserved
+        let first = self.first().nm;
+        let last = self.last().nm;
+        let num_before = SpdShape::new(shape.start.min(first), first, interval).num_intervals(interval) as usize;
+        let num_after = SpdShape::new(last, shape.end.max(last), interval).num_intervals(interval) as usize;
+
+        for i in (1..=num_before).rev() {
+            let x = first - i as f64 * interval;
             samples.push(Sample::new(x, extrap.evaluate(x)));
-            x += interval;
         }
         samples.extend(self.samples.iter());
-        x = self.end() + interval;
-        while x <= end {
+        for i in 1..=num_after {
+            let x = last + i as f64 * interval;
             samples.push(Sample::new(x, extrap.evaluate(x)));
-            x += interval;
         }
 
-        VSPD {
-            samples,
-            shape: SpdShape::new(shape.start, shape.end, interval),
+        match self.shape.interval {
+            Interval::Uniform(_) => {
+                let shape = SpdShape::new(samples[0].nm, samples[samples.len() - 1].nm, interval);
+                VSPD { samples, shape }
+            }
+            Interval::Varying => VSPD::new(samples),
         }
     }
 
-- 
2.43.0


From 90f421cc732201519d9dd5732d17363d0c67037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 09/17] fix: VSPD::to_xyz integrated varying SPDs over their
 own range only

Uniform SPDs are integrated over the ASTM E308 range of 360-780nm, varying
ones over whatever range they cover, so the same spectrum had two different
XYZ values and a perfect diffuser was not the illuminant's white.
---
 src/vspd.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 7aff05b..4c7dc33 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -440,8 +440,7 @@ impl VSPD {
         // interpolate to make it uniform
         match self.interval() {
             Interval::Varying => {
-                let spd = self.align(SpdShape::new(self.shape.start, self.shape.end, 1.0));
-                spd_to_xyz_integration(&spd, &illuminant, &cmf, spd.shape)
+                spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308())
             }
             Interval::Uniform(interval) => {
                 match interval.to_usize().unwrap() {
-- 
2.43.0


From 273a0e5e33aa848e56208de1ab1fa84483978244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 10/17] fix: VSPD::to_xyz applied 10nm weighting factors to
 other samplings

Intervals were truncated to whole nm, so e.g. the 10.9375nm Smits spectra,
and 10nm SPDs sampled at 385, 395, ..., were multiplied by weights for
different wavelengths (SMITS_RED had Y = 46.2 instead of 23.1). Interpolate
them as documented.
---
 src/vspd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 4c7dc33..13fea84 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -454,8 +454,9 @@ impl VSPD {
                         shape.interval = Interval::Uniform(5.0);
                         spd_to_xyz_integration(self, &illuminant, &cmf, shape)
                     }
-                    10 => {
-                        // use ASTME308 weighting factors
+                    10 if interval == 10.0 && (self.first().nm - cmf.shape().start) % interval == 0.0 => {
+                        // use ASTME308 weighting factors, which only apply to
+                        // SPDs sampled at their own wavelengths
                         spd_to_xyz_tristimulus_weighting_factors_astme308(self, &illuminant, &cmf)
                     }
                     // 20.0 => {
-- 
2.43.0


From ed462ef1d4aade413684f7baa7c1fb01a5810bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 11/17] fix: InterpolatorSprague with fewer than 6 samples

The boundary polynomials need 6 samples; with fewer the sums were silently
truncated, so that a constant SPD of 2 samples interpolated to values far
from its constant. Extend such SPDs linearly instead.
---
 src/interpolation.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/interpolation.rs b/src/interpolation.rs
index 52643b0..df99c9a 100644
--- a/src/interpolation.rs
+++ b/src/interpolation.rs
@@ -112,6 +112,20 @@ where
             .map(|(c, s)| *c * s.v)
             .sum::<f64>();
 
+        if vspd.len() < 6 {
+            // not enough samples for the boundary polynomials, extend linearly
+            let n = vspd.len();
+            let d0 = vspd.samples[1].v - vspd.samples[0].v;
+            let d1 = vspd.samples[n - 1].v - vspd.samples[n - 2].v;
+            y.push(vspd.samples[0].v - d0 * 2.0);
+            y.push(vspd.samples[0].v - d0);
+            y.extend(vspd.iter().map(|s| s.v));
+            y.push(vspd.samples[n - 1].v + d1);
+            y.push(vspd.samples[n - 1].v + d1 * 2.0);
+
+            return InterpolatorSprague { x, y };
+        }
+
         y.push(y1 / 209.0);
         y.push(y2 / 209.0);
         y.extend(vspd.iter().map(|s| s.v));
-- 
2.43.0


From 11f3cfa75cd18a03caf4441c2f138552d52b4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 12/17] fix: linspace with fewer than 2 steps

One step gave NaN (and so did the Lagrange coefficients for an interval of
2nm), no steps panicked in debug builds.
---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 13fea84..57aa2f6 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -754,7 +754,7 @@ impl Iterator for FloatRange {
 }
 
 pub fn linspace(start: f64, end: f64, steps: usize) -> FloatRange {
-    let delta = (end - start) / (steps - 1) as f64;
+    let delta = if steps > 1 { (end - start) / (steps - 1) as f64 } else { 0.0 };
     FloatRange {
         current: 0,
         steps,
-- 
2.43.0


From 0f4a692436097dd52e52d2b64be0689064669a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 13/17] fix: illuminant::xy::cct accepted NaN as a temperature

---
 src/illuminant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/illuminant.rs b/src/illuminant.rs
index ae3b692..eb6f37d 100644
--- a/src/illuminant.rs
+++ b/src/illuminant.rs
@@ -47,7 +47,7 @@ pub mod xy {
     {
         let t2 = t * t;
         let t3 = t2 * t;
-        if t < 4000.0 || t > 25000.0 {
+        if !(t >= 4000.0 && t <= 25000.0) {
             Err(TemperatureOutOfBound)
         } else if t <= 7000.0 {
             let xd = -4.607e9 / t3 + 2.9678e6 / t2 + 0.09911e3 / t + 0.244063;
-- 
2.43.0


From 9263728ed0fef1cb2ff7bc41796aa7b6ce94592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:16 +0000
Subject: [PATCH 14/17] fix: VSPD::trim kept a varying interval for evenly
 spaced samples

Trimming a varying SPD down to an evenly spaced stretch returned an SPD
whose shape says Varying, unlike constructing the same samples directly,
so the two compared unequal and converted to XYZ differently.
---
 src/vspd.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 57aa2f6..b53dcca 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -412,14 +412,15 @@ impl VSPD {
 
         let start = samples.first().unwrap().nm;
         let end = samples.last().unwrap().nm;
+        // the remaining samples of a varying SPD may be evenly spaced
+        let interval = match self.shape.interval {
+            Interval::Varying if samples.len() > 1 => calculate_interval(&samples),
+            interval => interval,
+        };
 
         VSPD {
             samples,
-            shape: SpdShape::<f64> {
-                start,
-                end,
-                interval: self.shape.interval,
-            },
+            shape: SpdShape::<f64> { start, end, interval },
         }
     }
 
-- 
2.43.0


From 988c9dc80317983e6a22a86c6e8d125a4ad7f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:33 +0000
Subject: [PATCH 15/17] fix: VSPD::interpolate evaluated past the last sample

The end of an SPD's shape may lie up to one interval beyond its last sample
(e.g. 380-785 at 10nm). interpolate() used that end as the boundary and
evaluated the Sprague polynomial outside the range it is defined on.
---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index b53dcca..f85b545 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -319,7 +319,7 @@ impl VSPD {
     pub fn interpolate(&self, mut shape: SpdShape<f64>) -> VSPD {
         let interp = InterpolatorSprague::<f64>::new(self);
         shape.start = shape.start.max(self.start());
-        shape.end = shape.end.min(self.end());
+        shape.end = shape.end.min(self.last().nm);
 
         let mut samples = Vec::<Sample>::new();
         samples.extend(shape.iter().map(|nm| Sample::new(nm, interp.evaluate(nm))));
-- 
2.43.0


From 610398b24997ce49c9df2b7c0661b8a7043358e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:37 +0000
Subject: [PATCH 16/17] fix: VSPD interval was off by the rounding of its first
 gap

With fractional spacing the first gap differs from the true spacing by the
rounding of two wavelengths, which over a long SPD adds up to more than the
rounding of its end. Aligning to the shape of such an SPD (as spd_to_nit
does) then lost the last wavelength.
---
 src/vspd.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index f85b545..483694c 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -486,7 +486,10 @@ fn calculate_interval(samples: &[Sample]) -> Interval<f64> {
         }
     }
 
-    Interval::Uniform(assumed_interval)
+    // the mean gap, so that the interval divides the whole range and is not
+    // off by the rounding of the first two wavelengths
+    let last = samples.len() - 1;
+    Interval::Uniform((samples[last].nm - samples[0].nm) / last as f64)
 }
 
 fn calculate_shape(samples: &[Sample]) -> SpdShape<f64> {
-- 
2.43.0


From dbf3bcee1309913dd9f2a703b30c8686e9aa6fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:41 +0000
Subject: [PATCH 17/17] fix: VSPD::to_xyz panicked on 10nm SPDs outside
 360-780nm

The weighting factor path trims the SPD to the CMF range, leaving nothing
of an SPD that lies entirely outside it. Every other sampling is extended
with its end value; do the same here.
---
 src/vspd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 483694c..e459dd7 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -455,7 +455,11 @@ impl VSPD {
                         shape.interval = Interval::Uniform(5.0);
                         spd_to_xyz_integration(self, &illuminant, &cmf, shape)
                     }
-                    10 if interval == 10.0 && (self.first().nm - cmf.shape().start) % interval == 0.0 => {
+                    10 if interval == 10.0
+                        && (self.first().nm - cmf.shape().start) % interval == 0.0
+                        && self.first().nm <= cmf.shape().end
+                        && self.last().nm >= cmf.shape().start =>
+                    {
                         // use ASTME308 weighting factors, which only apply to
                         // SPDs sampled at their own wavelengths
                         spd_to_xyz_tristimulus_weighting_factors_astme308(self, &illuminant, &cmf)
-- 
2.43.0

