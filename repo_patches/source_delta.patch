From 1a6a69b9c6c1b860a1ec5de63635225e2cacd833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 01/13] fix: check the last gap too when deciding whether a
 spectrum is uniform

calculate_interval skipped the gap before the last sample, so e.g. samples at
380, 390, 405 nm were declared uniform at 10 nm.
---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 6c82bfa..62218e4 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -439,7 +439,7 @@ fn calculate_interval(samples: &[Sample]) -> Interval<f64> {
         panic!("Must have at least 2 samples");
     }
     let assumed_interval = samples[1].nm - samples[0].nm;
-    for i in 1..samples.len() - 1 {
+    for i in 1..samples.len() {
         // This is safe because we guarantee we're in bounds in the for loop
         let interval = unsafe { samples.get_unchecked(i).nm - samples.get_unchecked(i - 1).nm };
         if !interval.approx_eq(assumed_interval, F64Margin { ulps: 2, epsilon: 1.0e-11 }) {
-- 
2.43.0


From 3f300c60802167272b6a406eb57f94c75a0367cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 02/13] fix: do not take the affine shortcut in
 Matrix33::inverse for negative entries

The test for an affine matrix compared the last column with epsilon without
taking the absolute value, so matrices with negative entries there (and a unit
corner) were inverted as if the entries were zero.
---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 5e45db9..92e0de2 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -267,7 +267,7 @@ where
 
     /// Matrix inverse
     pub fn inverse(self) -> Option<Matrix33<T>> {
-        if self[0][2] > T::epsilon() || self[1][2] > T::epsilon() || (self[2][2] - T::one()).abs() > T::epsilon() {
+        if self[0][2] != T::zero() || self[1][2] != T::zero() || self[2][2] != T::one() {
             let mut mtx_s = Matrix33::new([
                 self[1][1] * self[2][2] - self[2][1] * self[1][2],
                 self[2][1] * self[0][2] - self[0][1] * self[2][2],
-- 
2.43.0


From 4df74f8024a8273c831f46a1e900d05b82755f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 03/13] fix: choose the Gauss-Jordan pivot from the partially
 eliminated matrix

Pivots were looked up in the original matrix, so an invertible matrix whose
elimination produces a zero on the diagonal gave NaN.
---
 src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 92e0de2..99bfd3c 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -199,10 +199,10 @@ where
         // Forward elimination
         for i in 0..2 {
             let mut pivot = i;
-            let mut pivot_size: T = self[i][i].abs();
+            let mut pivot_size: T = mtx_t[i][i].abs();
 
             for j in (i + 1)..3 {
-                let tmp = self[j][i].abs();
+                let tmp = mtx_t[j][i].abs();
                 if tmp > pivot_size {
                     pivot = j;
                     pivot_size = tmp;
-- 
2.43.0


From 3fbfdaaa5ee154684ac40f2ea1e3a177f8993880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 04/13] fix: convert all remaining elements in the planar SIMD
 conversion

The scalar tail started at len - num_iters instead of after the last full
vector, leaving elements at zero for e.g. length 10.
---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 9c42ab8..e2652b3 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -98,7 +98,7 @@ pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
     let num_iters = xs.len() / S::VF32_WIDTH;
-    let start_remaining = xs.len() - num_iters;
+    let start_remaining = num_iters * S::VF32_WIDTH;
 
     let m0 = unsafe { S::set1_ps(mtx.x[0]) };
     let m1 = unsafe { S::set1_ps(mtx.x[1]) };
-- 
2.43.0


From 6885ad347a5dfffa9fe75f202c2ecd5078ef9588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 05/13] fix: refuse planes of different lengths in the planar
 SIMD conversion

The loads are unchecked and driven by the length of the first plane, so a
shorter second or third plane was read out of bounds.
---
 src/transform.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transform.rs b/src/transform.rs
index e2652b3..96a52d5 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -94,6 +94,7 @@ where
 
 #[cfg(all(target_arch = "x86_64", target_feature = "avx"))]
 pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys: &[f32], zs: &[f32]) -> (Vec<f32>, Vec<f32>, Vec<f32>) {
+    assert!(ys.len() == xs.len() && zs.len() == xs.len(), "planes must have the same length");
     let mut result_r = vec![0.0f32; xs.len()];
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
-- 
2.43.0


From 7842aecb6215bf6a2c9db3e0b2b9c29a62b26f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 06/13] fix: do not lose the last sample of a shape to rounding

(end - start) / interval was truncated, so e.g. (0, 0.3, 0.1) had three samples
instead of four.
---
 src/vspd.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 62218e4..bd2862c 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -77,7 +77,8 @@ where
         };
         SpdShapeIterator::<T> {
             current: 0,
-            end: ((self.end - self.start) / interval).to_usize().unwrap() + 1,
+            // tolerate rounding, e.g. 0.3 / 0.1 = 2.9999999999999996
+            end: ((self.end - self.start) / interval + T::epsilon().sqrt()).to_usize().unwrap() + 1,
             start: self.start,
             interval,
         }
@@ -218,13 +219,10 @@ impl VSPD {
         if values.len() < 2 {
             panic!("VSPD must have at least 2 samples. Got slice of {} values", values.len());
         }
-        let interval = match shape.interval {
-            Interval::Uniform(i) => i,
-            Interval::Varying => {
-                panic!("Cannot create a VSPD with varying interval");
-            }
-        };
-        let num_samples_from_shape = ((shape.end - shape.start) / interval) as usize + 1;
+        if let Interval::Varying = shape.interval {
+            panic!("Cannot create a VSPD with varying interval");
+        }
+        let num_samples_from_shape = shape.iter().count();
         if num_samples_from_shape != values.len() {
             panic!(
                 "Length of values slice did not match requested shape. SpdShape has {} samples, but values slice had {} values.",
-- 
2.43.0


From 9cd0829e2ca4c76126613ee78c4c7c65525f2ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 07/13] fix: linspace with one step returned NaN and with none
 overflowed

This made the 2 nm Lagrange coefficients NaN.
---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index bd2862c..bc0277b 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -714,7 +714,7 @@ impl Iterator for FloatRange {
 }
 
 pub fn linspace(start: f64, end: f64, steps: usize) -> FloatRange {
-    let delta = (end - start) / (steps - 1) as f64;
+    let delta = if steps > 1 { (end - start) / (steps - 1) as f64 } else { 0.0 };
     FloatRange {
         current: 0,
         steps,
-- 
2.43.0


From 522396c11ce8d1fb5a44eda6f672217c1a80226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:28 +0000
Subject: [PATCH 08/13] fix: keep extrapolated spectra on their own grid and
 label them correctly

Extrapolating to a boundary off the spectrum's grid produced an uneven first gap
labelled uniform, extrapolating to a narrower shape declared the narrower range,
and a varying spectrum was labelled uniform.
---
 src/vspd.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index bc0277b..b268673 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -324,9 +324,8 @@ impl VSPD {
     pub fn extrapolate(&self, shape: SpdShape<f64>) -> VSPD {
         let extrap = ExtrapolatorConstant::new(self);
         let mut samples = Vec::<Sample>::new();
-        let start = self.start().min(shape.start);
-        let end = self.end().max(shape.end);
-        let mut x = start;
+        let first = self.first().nm;
+        let last = self.last().nm;
 
         // use this SPD's interval unless it's varying, in which case use the
         // given shape's interval. If that is also varying, panic
@@ -340,21 +339,25 @@ impl VSPD {
             },
         };
 
-        while x < self.start() {
+        // extend by whole intervals so that the new samples stay on our own grid
+        let num_before = ((first - shape.start) / interval + 1.0e-9) as usize;
+        let num_after = ((shape.end - last) / interval + 1.0e-9) as usize;
+        for i in (1..=num_before).rev() {
+            let x = first - i as f64 * interval;
             samples.push(Sample::new(x, extrap.evaluate(x)));
-            x += interval;
         }
         samples.extend(self.samples.iter());
-        x = self.end() + interval;
-        while x <= end {
+        for i in 1..=num_after {
+            let x = last + i as f64 * interval;
             samples.push(Sample::new(x, extrap.evaluate(x)));
-            x += interval;
         }
 
-        VSPD {
-            samples,
-            shape: SpdShape::new(shape.start, shape.end, interval),
+        let mut shape = calculate_shape(&samples);
+        if let Interval::Uniform(_) = self.shape.interval {
+            shape.interval = self.shape.interval;
         }
+
+        VSPD { samples, shape }
     }
 
     /// Trim this [VSPD] to lie inside the given [SpdShape].
-- 
2.43.0


From d8c2088dd59a9cd3b155364c0874f371572aef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:28 +0000
Subject: [PATCH 09/13] fix: align to the wavelengths of the requested shape

Interpolating and then extrapolating only gives the requested wavelengths when
both ranges lie on one grid; otherwise the result had extra and shifted samples
(so converting a 5 nm spectrum starting at 383 nm weighted it with the wrong
wavelengths), and it panicked when the ranges do not overlap.
---
 src/vspd.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index b268673..eb8f71c 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -308,10 +308,23 @@ impl VSPD {
         VSPD { samples, shape }
     }
 
-    /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by first
-    /// interpolating then extrapolating
+    /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by
+    /// interpolating inside and extrapolating outside this SPD's range
     pub fn align(&self, shape: SpdShape<f64>) -> VSPD {
-        self.interpolate(shape).extrapolate(shape)
+        let interp = InterpolatorSprague::<f64>::new(self);
+        let extrap = ExtrapolatorConstant::new(self);
+        let first = self.first().nm;
+        let last = self.last().nm;
+
+        let samples = shape
+            .iter()
+            .map(|nm| {
+                let v = if nm < first || nm > last { extrap.evaluate(nm) } else { interp.evaluate(nm) };
+                Sample::new(nm, v)
+            })
+            .collect();
+
+        VSPD { samples, shape }
     }
 
     /// Create a new VSPD by extrapolating the boundaries of the domain of this
-- 
2.43.0


From 62813f3cba711d590d388d6efe45f7f24f4b8270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:28 +0000
Subject: [PATCH 10/13] fix: integrate varying spectra over the whole observer
 range

Varying spectra were integrated and normalised over their own range only, so a
perfect reflector did not give the white of the illuminant.
---
 src/vspd.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index eb8f71c..d4b38db 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -415,10 +415,7 @@ impl VSPD {
         // first figure out our interval. If it's varying then we need to
         // interpolate to make it uniform
         match self.interval() {
-            Interval::Varying => {
-                let spd = self.align(SpdShape::new(self.shape.start, self.shape.end, 1.0));
-                spd_to_xyz_integration(&spd, &illuminant, &cmf, spd.shape)
-            }
+            Interval::Varying => spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308()),
             Interval::Uniform(interval) => {
                 match interval.to_usize().unwrap() {
                     1 => {
-- 
2.43.0


From 4c0dd7d073d7739ad993ae53249bae579dd5538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:28 +0000
Subject: [PATCH 11/13] fix: use the tabulated-interval conversions only for
 data on their grid

The interval was truncated to an integer, so e.g. 10.9375 nm data was weighted as
10 nm data, and 10 nm data starting at 385 nm was weighted as if it started at
380 nm.
---
 src/vspd.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index d4b38db..95cf42a 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -417,18 +417,20 @@ impl VSPD {
         match self.interval() {
             Interval::Varying => spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308()),
             Interval::Uniform(interval) => {
-                match interval.to_usize().unwrap() {
-                    1 => {
+                // The 10nm weighting factors only apply to samples on their grid
+                let on_grid = (self.start() - 360.0) % 10.0 == 0.0 && self.start() <= 780.0 && self.end() >= 360.0;
+                match interval {
+                    i if i == 1.0 => {
                         // just integrate
                         spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308())
                     }
-                    5 => {
+                    i if i == 5.0 => {
                         // Integrate at 5nm
                         let mut shape = SpdShape::astm_e308();
                         shape.interval = Interval::Uniform(5.0);
                         spd_to_xyz_integration(self, &illuminant, &cmf, shape)
                     }
-                    10 => {
+                    i if i == 10.0 && on_grid => {
                         // use ASTME308 weighting factors
                         spd_to_xyz_tristimulus_weighting_factors_astme308(self, &illuminant, &cmf)
                     }
-- 
2.43.0


From bbd87a9b46ab4f4adb8af659b73dc5971e0aa07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:28 +0000
Subject: [PATCH 12/13] fix: interpolate spectra of fewer than six samples
 sensibly

The Sprague boundary coefficients were applied to fewer samples than they need,
so interpolating a constant spectrum of five samples did not give the constant.
---
 src/interpolation.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/interpolation.rs b/src/interpolation.rs
index 52643b0..1837c6e 100644
--- a/src/interpolation.rs
+++ b/src/interpolation.rs
@@ -112,6 +112,21 @@ where
             .map(|(c, s)| *c * s.v)
             .sum::<f64>();
 
+        if vspd.len() < 6 {
+            // The boundary coefficients need six samples. With fewer, continue
+            // the end segments in a straight line instead
+            let s = &vspd.samples;
+            let n = s.len();
+            let d0 = s[1].v - s[0].v;
+            let d1 = s[n - 1].v - s[n - 2].v;
+            y.push(s[0].v - 2.0 * d0);
+            y.push(s[0].v - d0);
+            y.extend(vspd.iter().map(|s| s.v));
+            y.push(s[n - 1].v + d1);
+            y.push(s[n - 1].v + 2.0 * d1);
+            return InterpolatorSprague { x, y };
+        }
+
         y.push(y1 / 209.0);
         y.push(y2 / 209.0);
         y.extend(vspd.iter().map(|s| s.v));
-- 
2.43.0


From 4c5d687ba4ef217055a61a22460c9650b8f72300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:42 +0000
Subject: [PATCH 13/13] fix: leave the last column of an inverted affine matrix
 alone

The affine branch of Matrix33::inverse divided the whole matrix by the
determinant of its upper-left block, so the bottom-right entry came out as
1/det instead of 1.
---
 src/math.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 99bfd3c..9be4249 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -314,14 +314,15 @@ where
             let r = self[0][0] * self[1][1] - self[1][0] * self[0][1];
 
             if r.abs() >= T::one() {
-                for s in mtx_s.x.iter_mut() {
-                    *s /= r;
+                // the last column stays (0, 0, 1)
+                for i in [0, 1, 3, 4] {
+                    mtx_s.x[i] /= r;
                 }
             } else {
                 let mr = r.abs() / T::min_positive_value();
-                for s in mtx_s.x.iter_mut() {
-                    if mr > s.abs() {
-                        *s /= r;
+                for i in [0, 1, 3, 4] {
+                    if mr > mtx_s.x[i].abs() {
+                        mtx_s.x[i] /= r;
                     } else {
                         return None;
                     }
-- 
2.43.0

