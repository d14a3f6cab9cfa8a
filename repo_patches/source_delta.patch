From d63998ac1016b12102b22e03a1aaf148df3c2864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 01/47] fix: size the Bluestein scratch to the current
 transform

A scratch buffer left behind by a longer transform was passed whole to the
inner FFT, so a shorter non-power-of-two transform on the same engine
returned wrong results.
---
 src/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 250a04a..81de404 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1096,9 +1096,9 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             let chirp = chirp_arc.as_ref();
             let fft_b = fft_b_arc.as_ref();
             let m = fft_b.len();
-            if a.len() < m {
-                a.resize(m, Complex::zero());
-            }
+            // Exactly `m` elements: a longer buffer left behind by an earlier transform
+            // would change the length of the convolution below.
+            a.resize(m, Complex::zero());
             for (i, &val) in input.iter().take(n).enumerate() {
                 a[i] = val.mul(chirp[i]);
             }
-- 
2.43.0


From 4f52cc94ad370b8d7c1120ba58aa5a9e2f40d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 02/47] fix: size the Stockham split buffers to the current
 transform

The split kernel takes its length from the slices it is given; buffers left
behind by a longer transform made a shorter one return wrong results.
---
 src/fft.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 81de404..e1e44c7 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -675,12 +675,9 @@ impl<T: Float> ScalarFftImpl<T> {
         if scratch.len() < n {
             scratch.resize(n, Complex::zero());
         }
-        if split_re.len() < n {
-            split_re.resize(n, T::zero());
-        }
-        if split_im.len() < n {
-            split_im.resize(n, T::zero());
-        }
+        // Exactly `n` elements: the split kernel transforms the whole slices.
+        split_re.resize(n, T::zero());
+        split_im.resize(n, T::zero());
 
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
-- 
2.43.0


From bec79b14342e917e452087cb6dfff3f7b0bb6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 03/47] fix: accept length-1 input in the Stockham FFT

A single sample is its own transform; the small-size dispatch had no arm for
it and panicked, also through plans, real FFTs of length 2 and the best
available engine.
---
 src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft.rs b/src/fft.rs
index e1e44c7..95b3e51 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -654,6 +654,7 @@ impl<T: Float> ScalarFftImpl<T> {
         }
         if n <= 16 {
             match n {
+                1 => {}
                 2 => fft2(input),
                 4 => fft4(input),
                 8 => fft8(input),
-- 
2.43.0


From 1e51016e473779a94559bfa5b2aed571c24c6a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 04/47] fix: reverse base-4 digits in the radix-4 FFT

The permutation flipped one bit per digit instead of incrementing base-4
digits, so every radix-4 transform of 16 or more points was wrong.
---
 src/fft.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 95b3e51..9f06dfe 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1456,15 +1456,16 @@ impl<T: Float> ScalarFftImpl<T> {
             // Fallback to generic FFT if not power of four
             return self.fft(input);
         }
-        // Bit-reversal for radix-4
+        // Digit-reversal for radix-4
         let mut j = 0usize;
         for i in 1..n {
-            let mut bit = n >> 2;
-            while j & bit != 0 {
-                j ^= bit;
-                bit >>= 2;
+            // Increment the base-4 digits of `j` from the most significant end.
+            let mut digit = n >> 2;
+            while j & (3 * digit) == 3 * digit {
+                j -= 3 * digit;
+                digit >>= 2;
             }
-            j ^= bit;
+            j += digit;
             if i < j {
                 input.swap(i, j);
             }
-- 
2.43.0


From 13dcd3f756b8d1708d6744f4cfbed2abf1fe1db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 05/47] fix: reject empty input in the mixed-radix FFT with
 twiddles

Factorizing zero never terminates.
---
 src/fft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index 9f06dfe..9e57d85 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1664,6 +1664,9 @@ impl ScalarFftImpl<f32> {
         twiddles: &TwiddleFactorBuffer,
     ) -> Result<(), FftError> {
         let n = input.len();
+        if n == 0 {
+            return Err(FftError::EmptyInput);
+        }
         let factors = factorize(n);
         if factors.iter().all(|&f| f == 2 || f == 4) {
             if factors.iter().all(|&f| f == 4) {
-- 
2.43.0


From 520f4cf2d48cf9001eddc5db30ac9855e0e81dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 06/47] fix: report a too large stride instead of overflowing

The length needed by a strided transform overflowed for huge strides, which
panicked instead of returning MismatchedLengths.
---
 src/fft.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 9e57d85..7807248 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1183,7 +1183,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if (n - 1)
+            .checked_mul(stride)
+            .is_none_or(|last| last >= input.len())
+        {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
@@ -1244,7 +1247,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 0 {
             return Ok(());
         }
-        if input.len() < (n - 1) * stride + 1 {
+        if (n - 1)
+            .checked_mul(stride)
+            .is_none_or(|last| last >= input.len())
+        {
             return Err(FftError::MismatchedLengths);
         }
         for i in 0..n {
-- 
2.43.0


From 1a63f7d3b0420a094d5210f5045fa74cad72d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 07/47] fix: full-precision constants in the 8 and 16 point
 kernels

The constants were rounded to f32 for every element type, which limited f64
transforms of these lengths to single-precision accuracy.
---
 src/fft_kernels.rs | 16 ++++++++--------
 src/num.rs         | 16 ++++++++++++++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/fft_kernels.rs b/src/fft_kernels.rs
index c260160..48b5a0c 100644
--- a/src/fft_kernels.rs
+++ b/src/fft_kernels.rs
@@ -32,7 +32,7 @@ pub fn fft4<T: Float>(input: &mut [Complex<T>]) {
 pub fn fft8<T: Float>(input: &mut [Complex<T>]) {
     debug_assert_eq!(input.len(), 8);
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = T::from_f64(core::f64::consts::FRAC_1_SQRT_2); // sqrt(2)/2
 
     // load inputs before overwriting
     let x0 = input[0];
@@ -107,7 +107,7 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     let x15 = input[15];
 
     let w1 = Complex::new(T::zero(), -T::one());
-    let s = T::from_f32(0.70710677); // sqrt(2)/2
+    let s = T::from_f64(core::f64::consts::FRAC_1_SQRT_2); // sqrt(2)/2
 
     // ---- even index FFT8 ----
     let a0 = x0.add(x8);
@@ -178,12 +178,12 @@ pub fn fft16<T: Float>(input: &mut [Complex<T>]) {
     input[15] = oa3.sub(t3);
 
     // ---- twiddle multiply odd half ----
-    let c1 = T::from_f32(0.9238795);
-    let s1 = T::from_f32(-0.38268343);
-    let c2 = T::from_f32(0.70710677);
-    let s2 = T::from_f32(-0.70710677);
-    let c3 = T::from_f32(0.38268343);
-    let s3 = T::from_f32(-0.9238795);
+    let c1 = T::from_f64(0.923_879_532_511_286_7);
+    let s1 = T::from_f64(-0.382_683_432_365_089_8);
+    let c2 = T::from_f64(core::f64::consts::FRAC_1_SQRT_2);
+    let s2 = T::from_f64(-core::f64::consts::FRAC_1_SQRT_2);
+    let c3 = T::from_f64(0.382_683_432_365_089_8);
+    let s3 = T::from_f64(-0.923_879_532_511_286_7);
     let c4 = T::zero();
     let s4 = T::from_f32(-1.0);
 
diff --git a/src/num.rs b/src/num.rs
index af16bca..eb309dc 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -18,6 +18,16 @@ pub trait Float:
     fn zero() -> Self;
     fn one() -> Self;
     fn from_f32(x: f32) -> Self;
+    /// Convert from `f64` without rounding through `f32`.
+    ///
+    /// The default adds up single-precision pieces, so implementors only need [`Float::from_f32`].
+    fn from_f64(x: f64) -> Self {
+        let hi = x as f32;
+        let rest = x - hi as f64;
+        let mid = rest as f32;
+        let lo = (rest - mid as f64) as f32;
+        Self::from_f32(hi) + Self::from_f32(mid) + Self::from_f32(lo)
+    }
     fn cos(self) -> Self;
     fn sin(self) -> Self;
     fn sin_cos(self) -> (Self, Self);
@@ -47,6 +57,9 @@ impl Float for f32 {
     fn from_f32(x: f32) -> Self {
         x
     }
+    fn from_f64(x: f64) -> Self {
+        x as f32
+    }
     fn cos(self) -> Self {
         f32::cos(self)
     }
@@ -84,6 +97,9 @@ impl Float for f64 {
     fn from_f32(x: f32) -> Self {
         x as f64
     }
+    fn from_f64(x: f64) -> Self {
+        x
+    }
     fn cos(self) -> Self {
         f64::cos(self)
     }
-- 
2.43.0


From 0b490de00f71d1d3644fcaf8e232517f4506e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 08/47] fix: reduce the Bluestein chirp angle before rounding

The squared index was rounded to f32 for every element type, so the chirp was
wrong for long non-power-of-two transforms and f64 results were only accurate
to single precision.
---
 src/fft.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index 7807248..1ed055c 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -414,7 +414,10 @@ impl<T: Float> FftPlanner<T> {
             let mut chirp: Vec<Complex<T>> = Vec::with_capacity(n);
             let mut b: Vec<Complex<T>> = Vec::with_capacity(m);
             for i in 0..n {
-                let angle = T::pi() * T::from_f32((i * i) as f32) / T::from_f32(n as f32);
+                // exp(-i*pi*k) has period 2 in k: reduce before rounding, i*i alone is
+                // too large for the element type.
+                let sq = (i as u64 * i as u64) % (2 * n as u64);
+                let angle = T::pi() * T::from_f64(sq as f64) / T::from_f64(n as f64);
                 chirp.push(Complex::expi(-angle));
                 b.push(Complex::expi(angle));
             }
-- 
2.43.0


From 52f672713f6b6b3235176ef8ecc917d706c40a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 09/47] fix: compute planner twiddle factors without a drifting
 recurrence

---
 src/fft.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 1ed055c..67be7ad 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -390,17 +390,14 @@ impl<T: Float> FftPlanner<T> {
 
         if !self.cache.contains_key(&n) {
             let half = n / 2;
-            let angle = -T::from_f32(2.0) * T::pi() / T::from_f32(n as f32);
-            let (sin_step, cos_step) = angle.sin_cos();
+            let two_pi = T::from_f64(2.0) * T::pi();
 
             let mut table: Vec<Complex<T>> = Vec::with_capacity(half);
-            let mut w_re = T::one();
-            let mut w_im = T::zero();
-            for _ in 0..half {
-                table.push(Complex::new(w_re, w_im));
-                let tmp = w_re;
-                w_re = w_re.mul_add(cos_step, -(w_im * sin_step));
-                w_im = w_im.mul_add(cos_step, tmp * sin_step);
+            for k in 0..half {
+                // Every entry is computed on its own: a recurrence accumulates rounding
+                // errors that dominate the result for long transforms.
+                let angle = two_pi * T::from_f64(k as f64) / T::from_f64(n as f64);
+                table.push(Complex::expi(-angle));
             }
             self.cache.insert(n, Arc::from(table));
         }
-- 
2.43.0


From 7606b74150c02ac78535f9a0e83b290729969760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 10/47] fix: compute real-FFT twiddle tables without a drifting
 recurrence

---
 src/rfft.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/rfft.rs b/src/rfft.rs
index 08d5a49..8f47373 100644
--- a/src/rfft.rs
+++ b/src/rfft.rs
@@ -170,14 +170,11 @@ mod precomputed {
 }
 
 fn build_twiddle_table<T: Float>(m: usize) -> alloc::vec::Vec<Complex<T>> {
-    let angle = -T::pi() / T::from_f32(m as f32);
-    let (sin_step, cos_step) = angle.sin_cos();
-    let w = Complex::new(cos_step, sin_step);
     let mut table = alloc::vec::Vec::with_capacity(m);
-    let mut current = Complex::new(T::one(), T::zero());
-    for _ in 0..m {
-        table.push(current);
-        current = current.mul(w);
+    for k in 0..m {
+        // Computed directly: a recurrence drifts for long transforms.
+        let angle = T::pi() * T::from_f64(k as f64) / T::from_f64(m as f64);
+        table.push(Complex::expi(-angle));
     }
     table
 }
-- 
2.43.0


From 537627d3d44560d4a9d5e44a3932300bf259f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 11/47] fix: take radix-4 twiddles from the table instead of a
 drifting product

---
 src/fft.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 67be7ad..ba34cd6 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1490,18 +1490,16 @@ impl<T: Float> ScalarFftImpl<T> {
                     i += len;
                 }
             } else {
-                let (w_step1, w_step2, w_step3) = {
+                let twiddles = {
                     let planner = unsafe { self.planner_mut() };
-                    let twiddles = planner.get_twiddles(len);
-                    (twiddles[1], twiddles[2], twiddles[3])
+                    planner.get_twiddles(len)
                 };
                 let quarter = len / 4;
                 while i < n {
-                    let mut w1 = Complex::new(T::one(), T::zero());
-                    let mut w2 = Complex::new(T::one(), T::zero());
-                    let mut w3 = Complex::new(T::one(), T::zero());
                     let mut j = 0usize;
                     while j + 1 < quarter {
+                        let (w1, w2) = (twiddles[j], twiddles[2 * j]);
+                        let w3 = w1.mul(w2);
                         let a0 = input[i + j];
                         let b0 = input[i + j + quarter].mul(w1);
                         let c0 = input[i + j + len / 2].mul(w2);
@@ -1512,11 +1510,9 @@ impl<T: Float> ScalarFftImpl<T> {
                         input[i + j + len / 2] = x2;
                         input[i + j + 3 * quarter] = x3;
 
-                        w1 = w1.mul(w_step1);
-                        w2 = w2.mul(w_step2);
-                        w3 = w3.mul(w_step3);
-
                         let j1 = j + 1;
+                        let (w1, w2) = (twiddles[j1], twiddles[2 * j1]);
+                        let w3 = w1.mul(w2);
                         let a1 = input[i + j1];
                         let b1 = input[i + j1 + quarter].mul(w1);
                         let c1 = input[i + j1 + len / 2].mul(w2);
@@ -1527,13 +1523,11 @@ impl<T: Float> ScalarFftImpl<T> {
                         input[i + j1 + len / 2] = y2;
                         input[i + j1 + 3 * quarter] = y3;
 
-                        w1 = w1.mul(w_step1);
-                        w2 = w2.mul(w_step2);
-                        w3 = w3.mul(w_step3);
-
                         j += 2;
                     }
                     if j < quarter {
+                        let (w1, w2) = (twiddles[j], twiddles[2 * j]);
+                        let w3 = w1.mul(w2);
                         let a = input[i + j];
                         let b = input[i + j + quarter].mul(w1);
                         let c = input[i + j + len / 2].mul(w2);
-- 
2.43.0


From 49b0f7a16a470f611cecca6f088f6612835996c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 12/47] fix: evaluate stack FFT twiddles directly instead of by
 recurrence

---
 src/fft.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index ba34cd6..743fcec 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -2222,23 +2222,17 @@ pub fn fft_inplace_stack<const N: usize>(buf: &mut [Complex<f32>; N]) -> Result<
     }
     let mut len = 2;
     while len <= N {
-        let ang = -2.0 * PI / (len as f32);
-        let (sin_step, cos_step) = ang.sin_cos();
-        let mut i = 0;
-        while i < N {
-            let mut w_re = 1.0f32;
-            let mut w_im = 0.0f32;
-            for j in 0..(len / 2) {
-                let w = Complex32::new(w_re, w_im);
+        for j in 0..(len / 2) {
+            // One direct evaluation per factor: a recurrence drifts for large N.
+            let w = Complex32::expi(-2.0 * PI * (j as f32) / (len as f32));
+            let mut i = 0;
+            while i < N {
                 let u = buf[i + j];
                 let v = buf[i + j + len / 2].mul(w);
                 buf[i + j] = u.add(v);
                 buf[i + j + len / 2] = u.sub(v);
-                let tmp = w_re;
-                w_re = w_re.mul_add(cos_step, -(w_im * sin_step));
-                w_im = w_im.mul_add(cos_step, tmp * sin_step);
+                i += len;
             }
-            i += len;
         }
         len <<= 1;
     }
-- 
2.43.0


From 9e4a33d9c7ba0e6bf6c9f8e5024c68a0d4a251d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 13/47] fix: keep the streaming ISTFT buffer long enough when
 the hop exceeds the window

---
 src/stft.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index d91b192..d8ff982 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -478,9 +478,10 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         self.out_pos += self.hop;
         self.buf_pos += self.hop;
         // Zero the region that will be written next time
-        if self.buf_pos + self.win_len > self.buffer.len() {
+        // (and, for a hop longer than the window, returned as silence).
+        let new_len = self.buf_pos + self.win_len.max(self.hop);
+        if new_len > self.buffer.len() {
             // Extend buffer if needed
-            let new_len = self.buf_pos + self.win_len;
             self.buffer.resize(new_len, 0.0);
             self.norm_buf.resize(new_len, 0.0);
         }
-- 
2.43.0


From bc766055f04bfb46b38c1c1277affddc5c7e3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 14/47] fix: reject a streaming ISTFT window of the wrong
 length

---
 src/stft.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index d8ff982..509b8e1 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -428,6 +428,9 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         if hop == 0 {
             return Err(FftError::InvalidHopSize);
         }
+        if window.len() != win_len {
+            return Err(FftError::MismatchedLengths);
+        }
         let buffer = vec![0.0f32; win_len + hop * 2];
         let norm_buf = vec![0.0f32; win_len + hop * 2];
         let time_buf = vec![crate::fft::Complex32::new(0.0, 0.0); win_len];
-- 
2.43.0


From 7a840ea398a976da78ed57026655d5652c9a5c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 15/47] fix: ISTFT writes its result over whatever the output
 buffer held

---
 src/stft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 509b8e1..f06413a 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -132,6 +132,9 @@ pub fn istft<Fft: FftImpl<f32>>(
     for x in scratch.iter_mut() {
         *x = 0.0;
     }
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
         let start = frame_idx * hop_size;
@@ -324,6 +327,9 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
     let partials = partials?;
     let mut norm = alloc::vec::Vec::with_capacity(output.len());
     norm.resize(output.len(), 0.0);
+    for x in output.iter_mut() {
+        *x = 0.0;
+    }
     for (start, acc_frame, norm_frame) in partials {
         for i in 0..win_len {
             if start + i < output.len() {
-- 
2.43.0


From f464cb80f3d32c794249a18bbd3e6894f268e3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 16/47] fix: validate buffer lengths in the parallel STFT
 helpers

---
 src/stft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index f06413a..307629d 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -245,6 +245,9 @@ pub fn parallel<Fft: FftImpl<f32>>(
     if hop_size == 0 {
         return Err(FftError::InvalidHopSize);
     }
+    if output.len() < signal.len().div_ceil(hop_size) {
+        return Err(FftError::MismatchedLengths);
+    }
     let win_len = window.len();
     output
         .par_iter_mut()
@@ -303,6 +306,9 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         return Err(FftError::InvalidHopSize);
     }
     let win_len = window.len();
+    if frames.iter().any(|frame| frame.len() != win_len) {
+        return Err(FftError::MismatchedLengths);
+    }
     type Accum = (usize, alloc::vec::Vec<f32>, alloc::vec::Vec<f32>);
     type AccumResult = Result<alloc::vec::Vec<Accum>, FftError>;
     let partials: AccumResult = frames
-- 
2.43.0


From ab8e68f6a83b2ce9ad163c77fd48734ce306332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 17/47] fix: validate the frame length in the single-frame STFT
 helpers

---
 src/stft.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index 307629d..bb2fffd 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -372,6 +372,9 @@ pub fn frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame_out.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     for i in 0..win_len {
         let x = if start + i < signal.len() {
             signal[start + i] * window[i]
@@ -401,6 +404,9 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
     fft: &Fft,
 ) -> Result<(), FftError> {
     let win_len = window.len();
+    if frame.len() != win_len {
+        return Err(FftError::MismatchedLengths);
+    }
     fft.ifft(frame)?;
     for i in 0..win_len {
         if start + i < output.len() {
-- 
2.43.0


From a0d0862ba40c7801fb23ed8675a66449f2180334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 18/47] fix: report 2D/3D sizes that overflow instead of
 wrapping

---
 src/ndfft.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ndfft.rs b/src/ndfft.rs
index 34a0c7f..cfc8fc3 100644
--- a/src/ndfft.rs
+++ b/src/ndfft.rs
@@ -78,7 +78,7 @@ pub fn fft2d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch_col: &mut [Complex<T>],
 ) -> Result<(), FftError> {
-    if rows * cols != data.len() {
+    if rows.checked_mul(cols) != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if rows == 0 || cols == 0 {
@@ -119,7 +119,10 @@ pub fn fft3d_inplace<T: Float>(
     fft: &ScalarFftImpl<T>,
     scratch: &mut Fft3dScratch<'_, T>,
 ) -> Result<(), FftError> {
-    if depth * rows * cols != data.len() {
+    let volume = depth
+        .checked_mul(rows)
+        .and_then(|plane| plane.checked_mul(cols));
+    if volume != Some(data.len()) {
         return Err(FftError::MismatchedLengths);
     }
     if depth == 0 || rows == 0 || cols == 0 {
-- 
2.43.0


From 66f4b35884a1d67125b4427419541303265e8337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 19/47] fix: DST-III is the inverse of DST-II, as documented

---
 src/dst.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index 549c829..86fa872 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -121,9 +121,10 @@ pub fn dst3(input: &[f32]) -> Vec<f32> {
     let mut output = vec![0.0; n];
     let factor = PI / n as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (i, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * i as f32).sin();
+        let last = input[n - 1] / 2.0;
+        let mut sum = if k.is_multiple_of(2) { last } else { -last };
+        for (i, &x) in input.iter().take(n - 1).enumerate() {
+            sum += x * (factor * (k as f32 + 0.5) * (i as f32 + 1.0)).sin();
         }
         *out = sum;
     }
@@ -245,9 +246,10 @@ pub fn dst3_inplace_stack_fft<const N: usize>(
     // Direct computation using stack memory to ensure parity with heap-based version.
     let factor = PI / N as f32;
     for (k, out) in output.iter_mut().enumerate() {
-        let mut sum = input[0] / 2.0;
-        for (n, &x) in input.iter().enumerate().skip(1) {
-            sum += x * (factor * (k as f32 + 0.5) * n as f32).sin();
+        let last = input[N - 1] / 2.0;
+        let mut sum = if k.is_multiple_of(2) { last } else { -last };
+        for (n, &x) in input.iter().take(N - 1).enumerate() {
+            sum += x * (factor * (k as f32 + 0.5) * (n as f32 + 1.0)).sin();
         }
         *out = sum;
     }
-- 
2.43.0


From 6569082943a175d9a9eb8118383e002c6040323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 20/47] fix: a planned DCT-II rejects buffers of another length

---
 src/dct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dct.rs b/src/dct.rs
index ace4d1a..62b1444 100644
--- a/src/dct.rs
+++ b/src/dct.rs
@@ -67,7 +67,7 @@ impl DctPlanner {
         cos: &[f32],
     ) -> Result<(), FftError> {
         let n = input.len();
-        if output.len() != n {
+        if output.len() != n || cos.len() != n {
             return Err(FftError::MismatchedLengths);
         }
         let m = 2 * n;
-- 
2.43.0


From 545a7ef583a2a49ff7b80699e6a99419307aed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 21/47] fix: multi-level wavelet reconstruction of odd
 intermediate lengths

---
 src/wavelet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 8f12b57..48ee1df 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -77,6 +77,8 @@ where
 {
     let mut current = approx.to_vec();
     for d in details.iter().rev() {
+        // Drop the sample the forward pass repeated to make this level even.
+        current.truncate(d.len());
         current = inverse(&current, d);
     }
     current
-- 
2.43.0


From bbfdc5e0d104cc3d72ddccb78c7cefb2f2646d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 22/47] fix: db4, sym4 and coif1 synthesis taps match their
 analysis taps

---
 src/wavelet.rs | 64 +++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/wavelet.rs b/src/wavelet.rs
index 48ee1df..57ecf72 100644
--- a/src/wavelet.rs
+++ b/src/wavelet.rs
@@ -316,24 +316,24 @@ pub fn db4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.2303778133088965,
-        0.7148465705529157,
-        0.6308807679298589,
-        -0.027983769416859854,
-        -0.18703481171909309,
-        0.030841381835560764,
-        0.0328830116668852,
-        -0.010597401785069032,
-    ];
-    let h = [
         -0.010597401785069032,
-        -0.0328830116668852,
+        0.0328830116668852,
         0.030841381835560764,
-        0.18703481171909309,
+        -0.18703481171909309,
         -0.027983769416859854,
-        -0.6308807679298589,
+        0.6308807679298589,
         0.7148465705529157,
+        0.2303778133088965,
+    ];
+    let h = [
         -0.2303778133088965,
+        0.7148465705529157,
+        -0.6308807679298589,
+        -0.027983769416859854,
+        0.18703481171909309,
+        0.030841381835560764,
+        -0.0328830116668852,
+        -0.010597401785069032,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -410,24 +410,24 @@ pub fn sym4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
-        0.0322231006040427,
-        -0.012603967262037833,
-        -0.09921954357684722,
-        0.29785779560527736,
-        0.8037387518059161,
-        0.49761866763201545,
-        -0.02963552764599851,
-        -0.07576571478927333,
-    ];
-    let h = [
         -0.07576571478927333,
-        0.02963552764599851,
+        -0.02963552764599851,
         0.49761866763201545,
-        -0.8037387518059161,
+        0.8037387518059161,
         0.29785779560527736,
-        0.09921954357684722,
+        -0.09921954357684722,
         -0.012603967262037833,
+        0.0322231006040427,
+    ];
+    let h = [
         -0.0322231006040427,
+        -0.012603967262037833,
+        0.09921954357684722,
+        0.29785779560527736,
+        -0.8037387518059161,
+        0.49761866763201545,
+        0.02963552764599851,
+        -0.07576571478927333,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
@@ -500,20 +500,20 @@ pub fn coif1_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {
     let len = n * 2;
     let mut output = vec![0.0; len];
     let g = [
+        -0.015655728135791993,
         -0.07273261951252645,
-        0.3378976624574818,
-        0.8525720202116004,
         0.3848648468648578,
+        0.8525720202116004,
+        0.3378976624574818,
         -0.07273261951252645,
-        -0.015655728135791993,
     ];
     let h = [
-        -0.015655728135791993,
         0.07273261951252645,
-        0.3848648468648578,
-        -0.8525720202116004,
         0.3378976624574818,
+        -0.8525720202116004,
+        0.3848648468648578,
         0.07273261951252645,
+        -0.015655728135791993,
     ];
     let reflect = |mut idx: isize| -> usize {
         let n = len as isize;
-- 
2.43.0


From f0692516c9bbda07aad51547e14c58dc8d9e6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 23/47] fix: Goertzel returns zero, not NaN, when rounding
 makes the power negative

---
 src/goertzel.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goertzel.rs b/src/goertzel.rs
index a10ac4f..a4d1fb7 100644
--- a/src/goertzel.rs
+++ b/src/goertzel.rs
@@ -32,7 +32,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
-    Ok(sqrtf(power))
+    // Rounding can push a vanishing power slightly below zero.
+    Ok(sqrtf(power.max(0.0)))
 }
 
 #[cfg(not(feature = "std"))]
@@ -55,7 +56,8 @@ pub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result
         s_prev = s;
     }
     let power = s_prev2 * s_prev2 + s_prev * s_prev - coeff * s_prev * s_prev2;
-    Ok(sqrtf(power))
+    // Rounding can push a vanishing power slightly below zero.
+    Ok(sqrtf(power.max(0.0)))
 }
 
 #[cfg(all(feature = "internal-tests", test))]
-- 
2.43.0


From 19cabb311b124f3cc8247d830c00b5bbad8b7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 24/47] fix: Kaiser windows with a large shape parameter

---
 src/window.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 81083eb..eb1da0c 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -6,16 +6,16 @@ use core::f32::consts::PI;
 use crate::num::Float;
 use libm::sqrtf;
 
-fn bessel0(x: f32) -> f32 {
-    // Approximate I0(x) using a series expansion
+fn bessel0(x: f32) -> f64 {
+    // Sum the series of I0(x) until its terms no longer matter
+    let y = f64::from(x) * f64::from(x) / 4.0;
     let mut sum = 1.0;
-    let y = x * x / 4.0;
-    let mut t = y;
-    let mut k = 1.0;
-    for n in 1..20 {
-        k *= n as f32;
-        sum += t / (k * k);
-        t *= y;
+    let mut term = 1.0;
+    let mut n = 1.0;
+    while term > sum * 1e-12 {
+        term *= y / (n * n);
+        sum += term;
+        n += 1.0;
     }
     sum
 }
@@ -55,7 +55,7 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     (0..len)
         .map(|i| {
             let r = (i as f32 - m) / m;
-            bessel0(beta * sqrtf(1.0 - r * r)) / denom
+            (bessel0(beta * sqrtf(1.0 - r * r)) / denom) as f32
         })
         .collect()
 }
@@ -67,7 +67,7 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
     (0..len)
         .map(|i| {
             let r = (i as f32 - m) / m;
-            bessel0(beta * sqrtf(1.0 - r * r)) / denom
+            (bessel0(beta * sqrtf(1.0 - r * r)) / denom) as f32
         })
         .collect()
 }
-- 
2.43.0


From 1214d656095db805fff446cf90b601b323e020af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 25/47] fix: Kaiser windows of length zero and one

---
 src/window.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/window.rs b/src/window.rs
index eb1da0c..e89b65d 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -50,6 +50,9 @@ pub fn blackman(len: usize) -> alloc::vec::Vec<f32> {
 /// Generate a Kaiser window of length `len` and shape parameter `beta`.
 #[cfg(feature = "std")]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len <= 1 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
@@ -62,6 +65,9 @@ pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
 
 #[cfg(not(feature = "std"))]
 pub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {
+    if len <= 1 {
+        return alloc::vec![1.0; len];
+    }
     let denom = bessel0(beta);
     let m = (len - 1) as f32 / 2.0;
     (0..len)
-- 
2.43.0


From 1ee21ba04402e0617560775072a25e4f6334a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 26/47] fix: Bohman window formula

---
 src/window_more.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index 0239224..c7217fb 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -43,8 +43,8 @@ pub fn bohman(len: usize) -> Vec<f32> {
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
-        let x = (i as f32 / (n - 1.0)) - 0.5;
-        *w_i = (1.0 - fabsf(x)) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
+        let x = fabsf(2.0 * i as f32 / (n - 1.0) - 1.0);
+        *w_i = (1.0 - x) * cosf(PI * x) + 1.0 / PI * sinf(PI * x);
     }
     w
 }
-- 
2.43.0


From e8c99f45cc5e00826bfb4bd9e7bce3ec72543759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 27/47] fix: Bartlett, Bohman and Nuttall windows of length one

---
 src/window_more.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/window_more.rs b/src/window_more.rs
index c7217fb..a009740 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -29,6 +29,9 @@ pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
 
 /// Bartlett (triangular) window
 pub fn bartlett(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -40,6 +43,9 @@ pub fn bartlett(len: usize) -> Vec<f32> {
 
 /// Bohman window
 pub fn bohman(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let n = len as f32;
     for (i, w_i) in w.iter_mut().enumerate() {
@@ -51,6 +57,9 @@ pub fn bohman(len: usize) -> Vec<f32> {
 
 /// Nuttall window
 pub fn nuttall(len: usize) -> Vec<f32> {
+    if len == 1 {
+        return vec![1.0];
+    }
     let mut w = vec![0.0; len];
     let a0 = 0.355768;
     let a1 = 0.487396;
-- 
2.43.0


From d4019788ca12d031c6bf0280de6953f74e668a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 28/47] fix: taper every sample inside the Tukey window's edges

---
 src/window_more.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/window_more.rs b/src/window_more.rs
index a009740..fa31fba 100644
--- a/src/window_more.rs
+++ b/src/window_more.rs
@@ -7,21 +7,19 @@ use crate::num::Float;
 use alloc::vec;
 use alloc::vec::Vec;
 use core::f32::consts::PI;
-use libm::{cosf, fabsf, floorf, sinf};
+use libm::{cosf, fabsf, sinf};
 
 /// Tukey window (tapered cosine)
 pub fn tukey(len: usize, alpha: f32) -> Vec<f32> {
     let alpha = alpha.clamp(0.0, 1.0);
     let mut w = vec![0.0; len];
-    let edge = floorf(alpha * (len as f32 - 1.0) / 2.0) as usize;
+    let taper = alpha * (len as f32 - 1.0) / 2.0;
     for (n, w_n) in w.iter_mut().enumerate() {
-        *w_n = if n < edge {
-            0.5 * (1.0 + (PI * (2.0 * n as f32 / (alpha * (len as f32 - 1.0)) - 1.0)).cos())
-        } else if n < len - edge {
-            1.0
+        let distance = n.min(len - 1 - n) as f32;
+        *w_n = if distance < taper {
+            0.5 * (1.0 - (PI * distance / taper).cos())
         } else {
-            0.5 * (1.0
-                + (PI * (2.0 * n as f32 / (alpha * (len as f32 - 1.0)) - 2.0 / alpha + 1.0)).cos())
+            1.0
         };
     }
     w
-- 
2.43.0


From 2f910ea2eee15261a617a1a2129262d9e7fe2db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 29/47] fix: stft_magnitudes reports a zero hop instead of
 dividing by it

---
 src/visual/spectrogram.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ea209d5..ac78278 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -54,6 +54,9 @@ pub fn stft_magnitudes(
     win_len: usize,
     hop: usize,
 ) -> Result<(Vec<Vec<f32>>, f32), FftError> {
+    if hop == 0 {
+        return Err(FftError::InvalidHopSize);
+    }
     let window = hann(win_len);
     let fft = ScalarFftImpl::<f32>::default();
     let mut frames = vec![vec![]; samples.len().div_ceil(hop)];
-- 
2.43.0


From bf76640343089850b19e94c7b9a43dc8fd60d940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 30/47] fix: the top frequency bin maps to the top pixel

---
 src/visual/spectrogram.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/visual/spectrogram.rs b/src/visual/spectrogram.rs
index ac78278..b4ad0aa 100644
--- a/src/visual/spectrogram.rs
+++ b/src/visual/spectrogram.rs
@@ -210,8 +210,9 @@ pub fn color_from_magnitude_u16(mag: f32, max_mag: f32, floor_db: f32, cmap: Col
 
 /// Map a frequency bin index to a pixel using logarithmic scaling.
 pub fn map_bin_to_pixel(bin: usize, max_bin: usize) -> usize {
-    if max_bin == 0 {
-        0
+    if bin >= max_bin {
+        // The top bin is the top pixel, whatever the logarithms round to.
+        max_bin
     } else {
         let log_max = (max_bin as f32 + 1.0).ln();
         let pos = (bin as f32 + 1.0).ln();
-- 
2.43.0


From 15a9dda5fa6d84ec21516e7a06a2f9b4ff225b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 31/47] fix: mix multi-channel WAV input down to mono

---
 sanity-check/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sanity-check/src/lib.rs b/sanity-check/src/lib.rs
index e5a7bee..d732728 100644
--- a/sanity-check/src/lib.rs
+++ b/sanity-check/src/lib.rs
@@ -99,10 +99,15 @@ pub fn read_audio(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
 fn read_wav(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
     let mut reader = WavReader::open(path)?;
     let spec = reader.spec();
-    let samples: Vec<f32> = reader
+    let interleaved: Vec<f32> = reader
         .samples::<i16>()
         .map(|s| s.map(|v| v as f32 / i16::MAX as f32))
         .collect::<Result<_, _>>()?;
+    let channels = usize::from(spec.channels.max(1));
+    let samples = interleaved
+        .chunks(channels)
+        .map(|frame| frame.iter().sum::<f32>() / frame.len() as f32)
+        .collect();
     Ok((samples, spec.sample_rate))
 }
 
-- 
2.43.0


From c1db88663c495d52bcd60a753699187b1e4a2ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 32/47] fix: scale WAV samples by their own bit depth

---
 sanity-check/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sanity-check/src/lib.rs b/sanity-check/src/lib.rs
index d732728..ede7a3c 100644
--- a/sanity-check/src/lib.rs
+++ b/sanity-check/src/lib.rs
@@ -1,5 +1,5 @@
 use clap::ValueEnum;
-use hound::WavReader;
+use hound::{SampleFormat, WavReader};
 use image::{
     codecs::png::{CompressionType, FilterType, PngEncoder},
     ColorType, EncodableLayout, ImageBuffer, ImageEncoder, Rgb,
@@ -99,10 +99,16 @@ pub fn read_audio(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
 fn read_wav(path: &Path) -> Result<(Vec<f32>, u32), Box<dyn Error>> {
     let mut reader = WavReader::open(path)?;
     let spec = reader.spec();
-    let interleaved: Vec<f32> = reader
-        .samples::<i16>()
-        .map(|s| s.map(|v| v as f32 / i16::MAX as f32))
-        .collect::<Result<_, _>>()?;
+    let interleaved: Vec<f32> = match spec.sample_format {
+        SampleFormat::Float => reader.samples::<f32>().collect::<Result<_, _>>()?,
+        SampleFormat::Int => {
+            let full_scale = ((1i64 << (spec.bits_per_sample - 1)) - 1) as f32;
+            reader
+                .samples::<i32>()
+                .map(|s| s.map(|v| v as f32 / full_scale))
+                .collect::<Result<_, _>>()?
+        }
+    };
     let channels = usize::from(spec.channels.max(1));
     let samples = interleaved
         .chunks(channels)
-- 
2.43.0


From 33747cc7c7e16490ff408c9ab2f16309ca282e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 33/47] fix: a huge parallel block size or thread count no
 longer overflows the threshold

---
 src/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 743fcec..5682ecd 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -154,7 +154,7 @@ fn parallel_fft_threshold() -> usize {
                 cache_elems,
                 core::cmp::max(per_core_work, env_parallel_fft_block_size()),
             );
-            per_core_min * env_parallel_fft_threads()
+            per_core_min.saturating_mul(env_parallel_fft_threads())
         }
     })
 }
@@ -276,7 +276,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
     #[cfg(not(feature = "std"))]
     {
@@ -302,7 +302,7 @@ fn should_parallelize_fft(n: usize, base_threshold: usize) -> bool {
             cache_elems,
             core::cmp::max(per_core_work, parallel_fft_block_size()),
         );
-        n >= per_core_min * parallel_fft_threads()
+        n >= per_core_min.saturating_mul(parallel_fft_threads())
     }
 }
 
-- 
2.43.0


From 19939fb9626488cdc8017e27d98004a6c9349fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 34/47] fix: no_std trigonometry and mul_add no longer call
 themselves forever

---
 src/num.rs | 72 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index eb309dc..5f470c8 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -61,20 +61,48 @@ impl Float for f32 {
         x as f32
     }
     fn cos(self) -> Self {
-        f32::cos(self)
+        #[cfg(feature = "std")]
+        {
+            f32::cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::cosf(self)
+        }
     }
     fn sin(self) -> Self {
-        f32::sin(self)
+        #[cfg(feature = "std")]
+        {
+            f32::sin(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sinf(self)
+        }
     }
     fn sin_cos(self) -> (Self, Self) {
-        f32::sin_cos(self)
+        #[cfg(feature = "std")]
+        {
+            f32::sin_cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sincosf(self)
+        }
     }
     fn pi() -> Self {
         PI32
     }
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
-        f32::mul_add(self, a, b)
+        #[cfg(feature = "std")]
+        {
+            f32::mul_add(self, a, b)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            self * a + b
+        }
     }
 }
 
@@ -101,20 +129,48 @@ impl Float for f64 {
         x
     }
     fn cos(self) -> Self {
-        f64::cos(self)
+        #[cfg(feature = "std")]
+        {
+            f64::cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::cos(self)
+        }
     }
     fn sin(self) -> Self {
-        f64::sin(self)
+        #[cfg(feature = "std")]
+        {
+            f64::sin(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sin(self)
+        }
     }
     fn sin_cos(self) -> (Self, Self) {
-        f64::sin_cos(self)
+        #[cfg(feature = "std")]
+        {
+            f64::sin_cos(self)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            libm::sincos(self)
+        }
     }
     fn pi() -> Self {
         core::f64::consts::PI
     }
     #[inline(always)]
     fn mul_add(self, a: Self, b: Self) -> Self {
-        f64::mul_add(self, a, b)
+        #[cfg(feature = "std")]
+        {
+            f64::mul_add(self, a, b)
+        }
+        #[cfg(not(feature = "std"))]
+        {
+            self * a + b
+        }
     }
 }
 
-- 
2.43.0


From 501c8e83b4901879fe6c8e54b271ded29ca4d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 35/47] fix: the simd and soa features build without std

---
 src/fft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft.rs b/src/fft.rs
index 5682ecd..aa0fbd5 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -2095,7 +2095,7 @@ impl<T: Float> FftPlan<T> {
     }
 }
 
-#[cfg(any(feature = "simd", feature = "soa"))]
+#[cfg(all(feature = "std", any(feature = "simd", feature = "soa")))]
 impl FftPlan<f32> {
     pub fn fft_complex_vec(&self, data: &mut crate::num::ComplexVec) -> Result<(), FftError> {
         if data.len() != self.n {
-- 
2.43.0


From 159c9a42ae378540b0f3176daf08e1887459cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 36/47] fix: without std, an inverse FFT that refuses its
 length leaves the data unchanged

---
 src/fft.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fft.rs b/src/fft.rs
index aa0fbd5..0b6571e 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1137,6 +1137,11 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if n == 1 {
             return Ok(());
         }
+        // Refuse before conjugating, so that a failed call leaves the data as it was.
+        #[cfg(not(feature = "std"))]
+        if !n.is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
         #[cfg(feature = "parallel")]
         {
             #[cfg(all(feature = "parallel", feature = "std"))]
@@ -1398,6 +1403,10 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
         if re.len() != im.len() {
             return Err(FftError::MismatchedLengths);
         }
+        #[cfg(not(feature = "std"))]
+        if !re.is_empty() && !re.len().is_power_of_two() {
+            return Err(FftError::NonPowerOfTwoNoStd);
+        }
         if core::any::TypeId::of::<T>() == core::any::TypeId::of::<f32>() {
             let this = unsafe { &*(self as *const _ as *const ScalarFftImpl<f32>) };
             let re32 = unsafe { &mut *(re as *mut [T] as *mut [f32]) };
-- 
2.43.0


From 56f5c1ee9e775fad3076d576b5b67bdc6da34ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 37/47] fix: IstftStream no longer keeps every sample it ever
 returned

push_frame extended its buffers by one hop per frame for the lifetime of the
stream.  Samples that were handed out by the previous call are dropped.
---
 src/stft.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stft.rs b/src/stft.rs
index bb2fffd..09bfb21 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -477,6 +477,14 @@ impl<'a, Fft: crate::fft::FftImpl<f32>> IstftStream<'a, Fft> {
         }
         self.time_buf.copy_from_slice(frame);
         self.fft.ifft(&mut self.time_buf)?;
+        // Drop the samples that were returned before: an endless stream must not grow.
+        let consumed = self.buf_pos.min(self.out_pos);
+        if consumed > 0 {
+            self.buffer.drain(..consumed);
+            self.norm_buf.drain(..consumed);
+            self.buf_pos -= consumed;
+            self.out_pos -= consumed;
+        }
         // Window and overlap-add
         for i in 0..self.win_len {
             let win = self.window[i];
-- 
2.43.0


From 0160e5b51a04e481e70b110ac307ef1af53f80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 38/47] fix: strided FFT wrappers hand engines an initialized
 scratch buffer

---
 src/fft.rs | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/fft.rs b/src/fft.rs
index 0b6571e..722b7ca 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -21,7 +21,6 @@ use core::arch::aarch64::*;
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::*;
 use core::cell::UnsafeCell;
-use core::mem::MaybeUninit;
 use hashbrown::HashMap;
 
 #[cfg(feature = "precomputed-twiddles")]
@@ -529,28 +528,16 @@ pub trait FftImpl<T: Float>: Any {
     /// Convenience wrapper that allocates a scratch buffer internally for [`fft_strided`].
     fn fft_strided_alloc(&self, input: &mut [Complex<T>], stride: usize) -> Result<(), FftError> {
         let n = if stride == 0 { 0 } else { input.len() / stride };
-        let mut scratch: Vec<MaybeUninit<Complex<T>>> = alloc::vec::Vec::with_capacity(n);
-        // SAFETY: The scratch buffer is uninitialized, but `fft_strided` treats it
-        // purely as workspace and writes to every element before any read.
-        unsafe {
-            scratch.set_len(n);
-            let scratch_slice =
-                core::slice::from_raw_parts_mut(scratch.as_mut_ptr() as *mut Complex<T>, n);
-            self.fft_strided(input, stride, scratch_slice)
-        }
+        // Initialized: an implementation of this trait may read its scratch buffer.
+        let mut scratch = alloc::vec![Complex::zero(); n];
+        self.fft_strided(input, stride, &mut scratch)
     }
     /// Convenience wrapper that allocates a scratch buffer internally for [`ifft_strided`].
     fn ifft_strided_alloc(&self, input: &mut [Complex<T>], stride: usize) -> Result<(), FftError> {
         let n = if stride == 0 { 0 } else { input.len() / stride };
-        let mut scratch: Vec<MaybeUninit<Complex<T>>> = alloc::vec::Vec::with_capacity(n);
-        // SAFETY: The scratch buffer is uninitialized, but `ifft_strided` treats it
-        // purely as workspace and writes to every element before any read.
-        unsafe {
-            scratch.set_len(n);
-            let scratch_slice =
-                core::slice::from_raw_parts_mut(scratch.as_mut_ptr() as *mut Complex<T>, n);
-            self.ifft_strided(input, stride, scratch_slice)
-        }
+        // Initialized: an implementation of this trait may read its scratch buffer.
+        let mut scratch = alloc::vec![Complex::zero(); n];
+        self.ifft_strided(input, stride, &mut scratch)
     }
 
     fn fft_split(&self, re: &mut [T], im: &mut [T]) -> Result<(), FftError> {
-- 
2.43.0


From bc9892b4447e5ce570e262838843503ef0b34394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 39/47] fix: a huge hop or start no longer wraps around to the
 beginning of the signal

---
 src/stft.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index 09bfb21..e09ed17 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -89,10 +89,10 @@ pub fn stft<Fft: FftImpl<f32>>(
     }
     let win_len = window.len();
     for (frame_idx, frame) in output.iter_mut().enumerate() {
-        let start = frame_idx * hop_size;
+        let start = frame_idx.saturating_mul(hop_size);
         frame.resize(win_len, Complex32::new(0.0, 0.0));
         for i in 0..win_len {
-            let x = if start + i < signal.len() {
+            let x = if start.saturating_add(i) < signal.len() {
                 signal[start + i] * window[i]
             } else {
                 0.0
@@ -137,13 +137,13 @@ pub fn istft<Fft: FftImpl<f32>>(
     }
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
-        let start = frame_idx * hop_size;
+        let start = frame_idx.saturating_mul(hop_size);
         if frame.len() != win_len {
             return Err(FftError::MismatchedLengths);
         }
         fft.ifft(frame)?;
         for i in 0..win_len {
-            if start + i < output.len() {
+            if start.saturating_add(i) < output.len() {
                 output[start + i] += frame[i].re * window[i];
                 scratch[start + i] += window[i] * window[i];
             }
@@ -253,10 +253,10 @@ pub fn parallel<Fft: FftImpl<f32>>(
         .par_iter_mut()
         .enumerate()
         .try_for_each(|(frame_idx, frame)| {
-            let start = frame_idx * hop_size;
+            let start = frame_idx.saturating_mul(hop_size);
             frame.clear();
             for i in 0..win_len {
-                let x = if start + i < signal.len() {
+                let x = if start.saturating_add(i) < signal.len() {
                     signal[start + i] * window[i]
                 } else {
                     0.0
@@ -315,7 +315,7 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
         .par_iter()
         .enumerate()
         .map(|(frame_idx, frame)| {
-            let start = frame_idx * hop_size;
+            let start = frame_idx.saturating_mul(hop_size);
             let mut time_buf = frame.clone();
             let fft_local = ScalarFftImpl::<f32>::default();
             fft_local.ifft(&mut time_buf)?;
@@ -338,7 +338,7 @@ pub fn inverse_parallel<Fft: FftImpl<f32>>(
     }
     for (start, acc_frame, norm_frame) in partials {
         for i in 0..win_len {
-            if start + i < output.len() {
+            if start.saturating_add(i) < output.len() {
                 output[start + i] += acc_frame[i];
                 norm[start + i] += norm_frame[i];
             }
@@ -376,7 +376,7 @@ pub fn frame<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     for i in 0..win_len {
-        let x = if start + i < signal.len() {
+        let x = if start.saturating_add(i) < signal.len() {
             signal[start + i] * window[i]
         } else {
             0.0
@@ -409,7 +409,7 @@ pub fn inverse_frame<Fft: FftImpl<f32>>(
     }
     fft.ifft(frame)?;
     for i in 0..win_len {
-        if start + i < output.len() {
+        if start.saturating_add(i) < output.len() {
             output[start + i] += frame[i].re * window[i];
         }
     }
-- 
2.43.0


From 541354621cc52a354e45e58947520d9018fa8a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 40/47] fix: web-spectrogram's bindings compile again

A merge left two versions of the FftResult and HaarResult getters inside one
another; keep the one the crate's tests and dependencies are written for.
---
 web-spectrogram/src/lib.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/web-spectrogram/src/lib.rs b/web-spectrogram/src/lib.rs
index bddb61a..f64481a 100644
--- a/web-spectrogram/src/lib.rs
+++ b/web-spectrogram/src/lib.rs
@@ -120,13 +120,7 @@ impl FftResult {
 
     #[wasm_bindgen(getter)]
     pub fn im(&self) -> Vec<f32> {
-    pub fn re(&self) -> Float32Array {
-        Float32Array::from(self.re.as_slice())
-    }
-
-    #[wasm_bindgen(getter)]
-    pub fn im(&self) -> Float32Array {
-        Float32Array::from(self.im.as_slice())
+        self.im.clone()
     }
 }
 
@@ -164,13 +158,7 @@ impl HaarResult {
 
     #[wasm_bindgen(getter)]
     pub fn diff(&self) -> Vec<f32> {
-    pub fn avg(&self) -> Array {
-        self.avg.iter().map(|&x| JsValue::from_f64(x as f64)).collect()
-    }
-
-    #[wasm_bindgen(getter)]
-    pub fn diff(&self) -> Array {
-        self.diff.iter().map(|&x| JsValue::from_f64(x as f64)).collect()
+        self.diff.clone()
     }
 }
 
-- 
2.43.0


From ec6fa405161ca3bf6959ebe7919cb1f91c30451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 41/47] fix: app.mjs parses again

A merge left half a call in front of the fragment shader and dropped the brace
that closes the WebGPU block, so the web app did not load at all.
---
 web-spectrogram/app.mjs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index da8d8b8..898ad58 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -66,8 +66,6 @@ function drawSpectrogramWebGL(gl, canvas, res) {
   gl.compileShader(vs);
 
   const fs = gl.createShader(gl.FRAGMENT_SHADER);
-  gl.shaderSource(
-    fs,
   const fragmentShaderSource = `
     precision highp float;
     varying vec2 v;
@@ -166,6 +164,7 @@ export function drawSpectrogram(
       drawSpectrogramCanvas(canvas, res, colorFn, colormap);
       return;
     }
+  }
   drawSpectrogramCanvas(canvas, res, colorFn, colormap);
 }
 
-- 
2.43.0


From 76d8fa7e9162ca9ae2c7829a40cc1459e8318f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 42/47] fix: drawing no longer takes the WebGPU context it
 cannot use

Once a canvas has handed out a webgpu context it returns null for 2d, so the
fallback below threw wherever WebGPU exists and WebGL does not.
---
 web-spectrogram/app.mjs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index 898ad58..f1a62cf 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -157,14 +157,8 @@ export function drawSpectrogram(
     drawSpectrogramWebGL(gl, canvas, res);
     return;
   }
-  if (typeof navigator !== "undefined" && navigator.gpu) {
-    const ctx = canvas.getContext("webgpu");
-    if (ctx) {
-      // WebGPU not implemented, fall back for now
-      drawSpectrogramCanvas(canvas, res, colorFn, colormap);
-      return;
-    }
-  }
+  // WebGPU is not implemented yet. A canvas has one kind of context for life:
+  // asking this one for "webgpu" would leave nothing to draw on below.
   drawSpectrogramCanvas(canvas, res, colorFn, colormap);
 }
 
-- 
2.43.0


From b1b6d1770dd6e17945fe222d66ee8f7763967fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 43/47] fix: WebGL shows the magnitudes where the canvas
 fallback does

The float texture was uploaded in a format neither WebGL version accepts
and without the wrapping WebGL 1 needs, frames and bins were exchanged and
the image was upside down, and the shader took the natural logarithm for
decibels.
---
 web-spectrogram/app.mjs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index f1a62cf..0ec4f39 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -90,9 +90,10 @@ function drawSpectrogramWebGL(gl, canvas, res) {
       return mix(vec3(1.0, 0.0, 0.0), vec3(1.0, 1.0, 1.0), local);
     }
     void main() {
-      float mag = texture2D(m, v).r;
+      // One texel row per frame; bin 0 is at the top.
+      float mag = texture2D(m, vec2(1.0 - v.y, v.x)).r;
       float ratio = mag / maxMag;
-      float db = 20.0 * log(max(ratio, 1e-12));
+      float db = 20.0 * log(max(ratio, 1e-12)) / log(10.0);
       float t = (db - FLOOR_DB) / (-FLOOR_DB);
       gl_FragColor = vec4(rainbow(clamp(t, 0.0, 1.0)), 1.0);
     }
@@ -125,14 +126,20 @@ function drawSpectrogramWebGL(gl, canvas, res) {
   gl.bindTexture(gl.TEXTURE_2D, tex);
   gl.texParameteri(gl.TEXTURE_2D, gl.TEXTURE_MIN_FILTER, gl.NEAREST);
   gl.texParameteri(gl.TEXTURE_2D, gl.TEXTURE_MAG_FILTER, gl.NEAREST);
+  // Textures of any size need clamping in WebGL 1.
+  gl.texParameteri(gl.TEXTURE_2D, gl.TEXTURE_WRAP_S, gl.CLAMP_TO_EDGE);
+  gl.texParameteri(gl.TEXTURE_2D, gl.TEXTURE_WRAP_T, gl.CLAMP_TO_EDGE);
+  // One float per texel: a sized format in WebGL 2, an extension in WebGL 1.
+  const sized = gl.R32F !== undefined;
+  if (!sized) gl.getExtension?.("OES_texture_float");
   gl.texImage2D(
     gl.TEXTURE_2D,
     0,
-    gl.RED,
-    width,
+    sized ? gl.R32F : gl.LUMINANCE,
     height,
+    width,
     0,
-    gl.RED,
+    sized ? gl.RED : gl.LUMINANCE,
     gl.FLOAT,
     new Float32Array(mags),
   );
-- 
2.43.0


From 9aa5b15f34f2e70597d297c793f3cf2ea5bf2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 44/47] fix: a file that decodes late no longer replaces the
 one selected after it

---
 web-spectrogram/app.mjs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index 0ec4f39..0e8d321 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -176,13 +176,17 @@ export async function initApp() {
   console.log("wasm loaded");
   const fileInput = document.getElementById("file");
   const canvas = document.getElementById("spec");
+  let latest = null;
   fileInput.addEventListener("change", async (e) => {
     const file = e.target.files[0];
     if (!file) return;
+    latest = file;
     console.log("file selected", file.name);
     const arrayBuffer = await file.arrayBuffer();
     const audioCtx = new AudioContext();
     const audioBuffer = await audioCtx.decodeAudioData(arrayBuffer);
+    // Another file was selected while this one was being read.
+    if (file !== latest) return;
     const samples = audioBuffer.getChannelData(0);
     console.log("samples", samples.length);
     const res = w.stft_magnitudes(samples, 1024, 512);
-- 
2.43.0


From 6307800b181d6a6c6b76bfe0b7fa361c0fce5a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 45/47] fix: keep f64 precision in the inverse scale and the
 DST tables beyond 2^24

T::from_f32(n as f32) rounds lengths and indices above 2^24 to 24 bits, so
f64 inverse transforms were off by 6e-8 (relative) and DST tables by 1e-7.
---
 src/dst.rs | 4 ++--
 src/fft.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dst.rs b/src/dst.rs
index 86fa872..e01cdea 100644
--- a/src/dst.rs
+++ b/src/dst.rs
@@ -39,11 +39,11 @@ impl<T: Float> DstPlanner<T> {
     }
 
     fn build_table_offset(n: usize, offset: f32) -> Vec<T> {
-        let factor = T::pi() / T::from_f32(n as f32);
+        let factor = T::pi() / T::from_f64(n as f64);
         let off = T::from_f32(offset);
         let mut table = Vec::with_capacity(n);
         for i in 0..n {
-            let angle = factor * (T::from_f32(i as f32) + off);
+            let angle = factor * (T::from_f64(i as f64) + off);
             table.push(angle.sin());
         }
         table
diff --git a/src/fft.rs b/src/fft.rs
index 722b7ca..0f75157 100644
--- a/src/fft.rs
+++ b/src/fft.rs
@@ -1154,7 +1154,7 @@ impl<T: Float> FftImpl<T> for ScalarFftImpl<T> {
             c.im = -c.im;
         }
         self.fft(input)?;
-        let scale = T::one() / T::from_f32(n as f32);
+        let scale = T::one() / T::from_f64(n as f64);
         for c in input.iter_mut() {
             c.im = -c.im;
             c.re = c.re * scale;
@@ -2043,7 +2043,7 @@ impl<T: Float> FftPlan<T> {
             c.im = -c.im;
         }
         self.fft(input)?;
-        let scale = T::one() / T::from_f32(self.n as f32);
+        let scale = T::one() / T::from_f64(self.n as f64);
         for c in input.iter_mut() {
             c.im = -c.im;
             c.re = c.re * scale;
-- 
2.43.0


From 0aab67375fb4a5b0870496bf4de68d61bf36e8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:07 +0000
Subject: [PATCH 46/47] fix: the short-time transforms check every argument
 before they change anything

---
 src/stft.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/stft.rs b/src/stft.rs
index e09ed17..b661bf3 100644
--- a/src/stft.rs
+++ b/src/stft.rs
@@ -88,6 +88,9 @@ pub fn stft<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     let win_len = window.len();
+    if win_len == 0 && !output.is_empty() {
+        return Err(FftError::EmptyInput);
+    }
     for (frame_idx, frame) in output.iter_mut().enumerate() {
         let start = frame_idx.saturating_mul(hop_size);
         frame.resize(win_len, Complex32::new(0.0, 0.0));
@@ -129,6 +132,12 @@ pub fn istft<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     let win_len = window.len();
+    if frames.iter().any(|frame| frame.len() != win_len) {
+        return Err(FftError::MismatchedLengths);
+    }
+    if win_len == 0 && !frames.is_empty() {
+        return Err(FftError::EmptyInput);
+    }
     for x in scratch.iter_mut() {
         *x = 0.0;
     }
@@ -138,9 +147,6 @@ pub fn istft<Fft: FftImpl<f32>>(
     // Overlap-add
     for (frame_idx, frame) in frames.iter_mut().enumerate() {
         let start = frame_idx.saturating_mul(hop_size);
-        if frame.len() != win_len {
-            return Err(FftError::MismatchedLengths);
-        }
         fft.ifft(frame)?;
         for i in 0..win_len {
             if start.saturating_add(i) < output.len() {
@@ -249,6 +255,9 @@ pub fn parallel<Fft: FftImpl<f32>>(
         return Err(FftError::MismatchedLengths);
     }
     let win_len = window.len();
+    if win_len == 0 && !output.is_empty() {
+        return Err(FftError::EmptyInput);
+    }
     output
         .par_iter_mut()
         .enumerate()
-- 
2.43.0


From a7ca709caa8b8ea146688c52bd8fa7014dab8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:55 +0000
Subject: [PATCH 47/47] fix: web spectrogram: a silent recording is drawn at
 the floor, not as 0 / 0

---
 web-spectrogram/app.mjs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/web-spectrogram/app.mjs b/web-spectrogram/app.mjs
index 0e8d321..4124e63 100644
--- a/web-spectrogram/app.mjs
+++ b/web-spectrogram/app.mjs
@@ -29,7 +29,8 @@ async function loadWasm() {
 /* c8 ignore stop */
 
 export function magnitudeToDb(mag, maxMag) {
-  const ratio = mag / maxMag;
+  // Nothing is louder than a maximum of zero: silence.
+  const ratio = maxMag > 0 ? mag / maxMag : 0;
   return 20 * Math.log10(Math.max(ratio, 1e-12));
 }
 
@@ -92,7 +93,7 @@ function drawSpectrogramWebGL(gl, canvas, res) {
     void main() {
       // One texel row per frame; bin 0 is at the top.
       float mag = texture2D(m, vec2(1.0 - v.y, v.x)).r;
-      float ratio = mag / maxMag;
+      float ratio = maxMag > 0.0 ? mag / maxMag : 0.0;
       float db = 20.0 * log(max(ratio, 1e-12)) / log(10.0);
       float t = (db - FLOOR_DB) / (-FLOOR_DB);
       gl_FragColor = vec4(rainbow(clamp(t, 0.0, 1.0)), 1.0);
-- 
2.43.0

