From 4510e25f1f51ea0b2ea5a910c77731ccf9864b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:39 +0000
Subject: [PATCH 1/6] fix: Radix4 input reordering for lengths >= 128

prepare_radix4_reversed did not reverse the order of the interleaved
subsequences, so every Radix4 of length 128 or more computed a wrong
transform.
---
 src/scalar/radix4.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index ee179b3..17eb182 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -339,21 +339,24 @@ fn prepare_radix4_reversed<T: FftNum>(
             }
         }
     } else {
-        {
-            let i = 0;
-            prepare_radix4(
+        // Reversing the sequence also reverses the order of its 4 interleaved subsequences,
+        // and the last one is reversed twice, so it ends up in its original order
+        for i in 0..3 {
+            prepare_radix4_reversed(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
         }
-        for i in 1..4 {
-            prepare_radix4_reversed(
+
+        {
+            let i = 3;
+            prepare_radix4(
                 size / 4,
                 base_len,
-                &input[i * stride..],
+                &input[(3 - i) * stride..],
                 &mut output[i * (size / 4)..],
                 stride * 4,
             );
-- 
2.43.0


From 074212ed747aaef07ce73cc56707cc952405e47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:55 +0000
Subject: [PATCH 2/6] fix: keep sqrt(1/2) twiddle constant in full precision

The constant was rounded to f32 even for f64 transforms, which limited
their accuracy to about 8 digits.
---
 src/scalar/mixed_radix.rs | 2 +-
 src/scalar/radix3.rs      | 2 +-
 src/scalar/radix5.rs      | 2 +-
 src/scalar/radix6.rs      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scalar/mixed_radix.rs b/src/scalar/mixed_radix.rs
index 5868c47..6170642 100644
--- a/src/scalar/mixed_radix.rs
+++ b/src/scalar/mixed_radix.rs
@@ -52,7 +52,7 @@ impl<T: FftNum> MixedRadix<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(row_limit * column_limit);
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for row in 1..row_limit {
             for column in 1..column_limit {
                 // Our twiddle will be a one-eigth turn around the circle from what the basic "row * column" twiddle would have been, times sqrt(0.5)
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index f628d13..32805ff 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix3xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index fe98611..ac3ae52 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -30,7 +30,7 @@ impl<T: FftNum> MixedRadix5xn<T> {
 
         let twiddle_limit = height / 2 + 1;
 
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         let mut twiddles = Vec::with_capacity((twiddle_limit - 1) * 2);
         for column in 1..twiddle_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(column * 1 * 8 + len, len * 8) * root2);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index 6116774..4923178 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -31,7 +31,7 @@ impl<T: FftNum> MixedRadix6xn<T> {
         let column_limit = height / 2 + 1;
 
         let mut twiddles = Vec::with_capacity(3 * (column_limit - 1));
-        let root2 = T::from_f32(0.5f32.sqrt()).unwrap();
+        let root2 = T::from_f64(0.5f64.sqrt()).unwrap();
         for column in 1..column_limit {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(1 * column * 8 + len, len * 8) * root2);
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(2 * column * 8 + len, len * 8) * root2);
-- 
2.43.0


From 63967c5d36e3f01c19667b8272ce5ad059120a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:53 +0000
Subject: [PATCH 3/6] fix: MixedRadixNxn must hand its inner DHT the scratch it
 asks for

In-place calls passed no scratch to the inner out-of-place DHT and
panicked whenever they had reported more scratch than their own length;
out-of-place calls ignored the scratch they had asked for.
---
 src/scalar/radix2.rs | 29 ++++++++++++++---------------
 src/scalar/radix3.rs | 29 ++++++++++++++---------------
 src/scalar/radix4.rs | 29 ++++++++++++++---------------
 src/scalar/radix5.rs | 29 ++++++++++++++---------------
 src/scalar/radix6.rs | 29 ++++++++++++++---------------
 5 files changed, 70 insertions(+), 75 deletions(-)

diff --git a/src/scalar/radix2.rs b/src/scalar/radix2.rs
index daaf7df..b2b2742 100644
--- a/src/scalar/radix2.rs
+++ b/src/scalar/radix2.rs
@@ -34,6 +34,7 @@ impl<T: FftNum> MixedRadix2xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -49,18 +50,9 @@ impl<T: FftNum> MixedRadix2xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we bounce data between the buffer and our own scratch of size self.len()
+        // If our height DHT's OOP DHT requires any scratch, then we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -123,11 +115,13 @@ impl<T: FftNum> MixedRadix2xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -137,13 +131,18 @@ impl<T: FftNum> MixedRadix2xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 2, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let height_scratch = if scratch.len() > input.len() {
+            scratch
+        } else {
+            input
+        };
+        self.height_size_fft.process_with_scratch(output, height_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix3.rs b/src/scalar/radix3.rs
index 32805ff..8de4e93 100644
--- a/src/scalar/radix3.rs
+++ b/src/scalar/radix3.rs
@@ -38,6 +38,7 @@ impl<T: FftNum> MixedRadix3xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -53,18 +54,9 @@ impl<T: FftNum> MixedRadix3xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we bounce data between the buffer and our own scratch of size self.len()
+        // If our height DHT's OOP DHT requires any scratch, then we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -147,11 +139,13 @@ impl<T: FftNum> MixedRadix3xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -161,13 +155,18 @@ impl<T: FftNum> MixedRadix3xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 3, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let height_scratch = if scratch.len() > input.len() {
+            scratch
+        } else {
+            input
+        };
+        self.height_size_fft.process_with_scratch(output, height_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix4.rs b/src/scalar/radix4.rs
index 17eb182..30bc64a 100644
--- a/src/scalar/radix4.rs
+++ b/src/scalar/radix4.rs
@@ -35,6 +35,7 @@ impl<T: FftNum> MixedRadix4xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -50,18 +51,9 @@ impl<T: FftNum> MixedRadix4xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we bounce data between the buffer and our own scratch of size self.len()
+        // If our height DHT's OOP DHT requires any scratch, then we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -153,11 +145,13 @@ impl<T: FftNum> MixedRadix4xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -167,13 +161,18 @@ impl<T: FftNum> MixedRadix4xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 4, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let height_scratch = if scratch.len() > input.len() {
+            scratch
+        } else {
+            input
+        };
+        self.height_size_fft.process_with_scratch(output, height_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix5.rs b/src/scalar/radix5.rs
index ac3ae52..bd478c9 100644
--- a/src/scalar/radix5.rs
+++ b/src/scalar/radix5.rs
@@ -39,6 +39,7 @@ impl<T: FftNum> MixedRadix5xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -54,18 +55,9 @@ impl<T: FftNum> MixedRadix5xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we bounce data between the buffer and our own scratch of size self.len()
+        // If our height DHT's OOP DHT requires any scratch, then we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -170,11 +162,13 @@ impl<T: FftNum> MixedRadix5xn<T> {
     }
 
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -184,13 +178,18 @@ impl<T: FftNum> MixedRadix5xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 5, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let height_scratch = if scratch.len() > input.len() {
+            scratch
+        } else {
+            input
+        };
+        self.height_size_fft.process_with_scratch(output, height_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
diff --git a/src/scalar/radix6.rs b/src/scalar/radix6.rs
index 4923178..f5433f8 100644
--- a/src/scalar/radix6.rs
+++ b/src/scalar/radix6.rs
@@ -40,6 +40,7 @@ impl<T: FftNum> MixedRadix6xn<T> {
 
         // Collect some data about what kind of scratch space our inner DHTs need
         let height_inplace_scratch = height_dht.get_inplace_scratch_len();
+        let height_outofplace_scratch = height_dht.get_outofplace_scratch_len();
 
         // Computing the scratch we'll require is a somewhat confusing process.
         // When we compute an out-of-place DHT, both of our inner DHTs are in-place
@@ -55,18 +56,9 @@ impl<T: FftNum> MixedRadix6xn<T> {
             0
         };
 
-        // For the in-place DHT, again the best case is that we can just bounce data around between internal buffers, and the only inplace scratch we need is self.len()
-        // If our width fft's OOP DHT requires any scratch, then we can tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
-        // Likewise, if our height inplace DHT requires more inplace scracth than self.len(), we can tack that on to the end of our own inplace scratch.
-        // Thus, the total inplace scratch is our own length plus the max of what the two inner DHTs will need
-        let inplace_scratch_len = len
-            + 
-                if height_inplace_scratch > len {
-                    height_inplace_scratch
-                } else {
-                    0
-                }
-            ;
+        // For the in-place DHT, we bounce data between the buffer and our own scratch of size self.len()
+        // If our height DHT's OOP DHT requires any scratch, then we tack that on the end of our own scratch, and use split_at_mut to separate our own from our internal DHT's
+        let inplace_scratch_len = len + height_outofplace_scratch;
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
@@ -186,11 +178,13 @@ impl<T: FftNum> MixedRadix6xn<T> {
 
     
     fn perform_dht_inplace(&self, buffer: &mut [T], scratch: &mut [T]) {
+        let (scratch, inner_scratch) = scratch.split_at_mut(self.len());
+
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(buffer, scratch, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, &mut []);
+        self.height_size_fft.process_outofplace_with_scratch(scratch, buffer, inner_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(buffer);
@@ -200,13 +194,18 @@ impl<T: FftNum> MixedRadix6xn<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         // Step 1: Transpose the width x height array to height x width
         array_utils::transpose_half_rev_out(input, output, 6, self.height);
 
         // Step 2: Compute DHTs of size `height` down the rows of our transposed array
-        self.height_size_fft.process_with_scratch(output, input);
+        let height_scratch = if scratch.len() > input.len() {
+            scratch
+        } else {
+            input
+        };
+        self.height_size_fft.process_with_scratch(output, height_scratch);
 
         // Step 3: Apply twiddle factors
         self.apply_twiddles(output);
-- 
2.43.0


From 32a94d8552b346faf88818d4f12acdcb49156251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:53 +0000
Subject: [PATCH 4/6] fix: SplitRadix must request and forward its inner DHTs'
 scratch

Only half_len elements of scratch were ever requested, whatever the inner
DHTs needed, so scratch-hungry inner DHTs panicked.
---
 src/scalar/split_radix.rs | 47 +++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/scalar/split_radix.rs b/src/scalar/split_radix.rs
index 2cff5b2..53e52a2 100644
--- a/src/scalar/split_radix.rs
+++ b/src/scalar/split_radix.rs
@@ -33,14 +33,34 @@ impl<T: FftNum> SplitRadix<T> {
             twiddles.push(twiddles::compute_dft_twiddle_inverse::<T>(x * 3, len));
         }
 
+        // When we compute an inplace DHT, our half DHT will be in-place, and our quarter DHT will be out-of-place
+        // The half DHT can use our own scratch of size half_len, if that is enough. Anything more has to be tacked on to the end of our own scratch
+        let half_inplace_scratch = half_dht.get_inplace_scratch_len();
+        let quarter_inplace_scratch = quarter_dht.get_inplace_scratch_len();
+        let quarter_outofplace_scratch = quarter_dht.get_outofplace_scratch_len();
+        let extra_half_scratch = if half_inplace_scratch > half_len {
+            half_inplace_scratch
+        } else {
+            0
+        };
+        let inplace_scratch_len = half_len + extra_half_scratch.max(quarter_outofplace_scratch);
+
+        // When we compute an out-of-place DHT, both inner DHTs are in-place, and can use the output buffer as scratch if that is enough
+        let max_inner_inplace_scratch = half_inplace_scratch.max(quarter_inplace_scratch);
+        let outofplace_scratch_len = if max_inner_inplace_scratch > len {
+            max_inner_inplace_scratch
+        } else {
+            0
+        };
+
         Self {
             twiddles: twiddles.into_boxed_slice(),
 
             quarter_dht,
             half_dht,
 
-            inplace_scratch_len: half_len,
-            outofplace_scratch_len: 0,
+            inplace_scratch_len,
+            outofplace_scratch_len,
             len,
         }
     }
@@ -120,8 +140,15 @@ impl<T: FftNum> SplitRadix<T> {
 
         let (buffer_evens, buffer_odds) = buffer.split_at_mut(half_len);
 
-        self.half_dht.process_with_scratch(buffer_evens, scratch);
-        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, &mut []);
+        let (scratch, inner_scratch) = scratch.split_at_mut(half_len);
+        let half_scratch = if inner_scratch.len() > scratch.len() {
+            &mut inner_scratch[..]
+        } else {
+            &mut scratch[..]
+        };
+
+        self.half_dht.process_with_scratch(buffer_evens, half_scratch);
+        self.quarter_dht.process_outofplace_with_scratch(buffer_odds, scratch, inner_scratch);
         
         let (scratch_quarter1, scratch_quarter3) = scratch.split_at_mut(quarter_len);
 
@@ -137,7 +164,7 @@ impl<T: FftNum> SplitRadix<T> {
         &self,
         input: &mut [T],
         output: &mut [T],
-        _scratch: &mut [T],
+        scratch: &mut [T],
     ) {
         self.apply_twiddles(input);
         
@@ -146,8 +173,14 @@ impl<T: FftNum> SplitRadix<T> {
 
         let (buffer_evens, buffer_odds) = input.split_at_mut(half_len);
         
-        self.half_dht.process_with_scratch(buffer_evens, output);
-        self.quarter_dht.process_with_scratch(buffer_odds, output);
+        let inner_scratch = if scratch.len() > output.len() {
+            scratch
+        } else {
+            &mut output[..]
+        };
+
+        self.half_dht.process_with_scratch(buffer_evens, inner_scratch);
+        self.quarter_dht.process_with_scratch(buffer_odds, inner_scratch);
 
         let (buffer_quarter1, buffer_quarter3) = buffer_odds.split_at_mut(quarter_len);
 
-- 
2.43.0


From 4a16a7c993c276372bb004dcfffbf62d80d7da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:53 +0000
Subject: [PATCH 5/6] fix: RadersAlgorithm for length 2

The only primitive root of 2 is 1, which was never tried, so the
constructor panicked although 2 is prime.
---
 src/math_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_utils.rs b/src/math_utils.rs
index e8a9b80..8a53d2b 100644
--- a/src/math_utils.rs
+++ b/src/math_utils.rs
@@ -59,7 +59,7 @@ pub fn primitive_root(prime: u64) -> Option<u64> {
         .iter()
         .map(|factor| (prime - 1) / factor)
         .collect();
-    'next: for potential_root in 2..prime {
+    'next: for potential_root in 1..prime {
         // for each distinct factor, if potential_root^(p-1)/factor mod p is 1, reject it
         for exp in &test_exponents {
             if modular_exponent(potential_root, *exp, prime) == 1 {
-- 
2.43.0


From e29cc448b2b819716f6d7e9cd18452491faee430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:53 +0000
Subject: [PATCH 6/6] fix: Butterfly1 must reject empty buffers like every
 other DHT

Dht documents a panic if the buffer is shorter than self.len().
---
 src/scalar/butterflies.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scalar/butterflies.rs b/src/scalar/butterflies.rs
index baf16a3..dd055b5 100644
--- a/src/scalar/butterflies.rs
+++ b/src/scalar/butterflies.rs
@@ -105,10 +105,18 @@ impl<T: FftNum> Dht<T> for Butterfly1<T> {
         output: &mut [T],
         _scratch: &mut [T],
     ) {
+        if input.len() < self.len() || output.len() != input.len() {
+            dht_error_outofplace(self.len(), input.len(), output.len(), 0, 0);
+            return; // Unreachable, because dht_error_outofplace asserts
+        }
         output.copy_from_slice(&input);
     }
 
-    fn process_with_scratch(&self, _buffer: &mut [T], _scratch: &mut [T]) {}
+    fn process_with_scratch(&self, buffer: &mut [T], _scratch: &mut [T]) {
+        if buffer.len() < self.len() {
+            dht_error_inplace(self.len(), buffer.len(), 0, 0);
+        }
+    }
     fn get_inplace_scratch_len(&self) -> usize { 0 }
     fn get_outofplace_scratch_len(&self) -> usize { 0 }
 }
-- 
2.43.0

