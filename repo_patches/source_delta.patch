From a346c43a4fca46bdf03959ef2f32cd1ef136fc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 01/47] fix: AVX2 RGB u8 horizontal pass reads the odd tap from
 its own pixel

---
 src/avx2/rgb_u8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx2/rgb_u8.rs b/src/avx2/rgb_u8.rs
index bc22d66..e98a658 100644
--- a/src/avx2/rgb_u8.rs
+++ b/src/avx2/rgb_u8.rs
@@ -468,7 +468,7 @@ unsafe fn add_one_weight<const HAS_DOT: bool>(
 ) -> __m128i {
     const COMPONENTS: usize = 3;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
-    let base_pixel = _mm_loadu_si16(src.as_ptr());
+    let base_pixel = _mm_loadu_si16(src_ptr);
     let m_vl = _mm_insert_epi8::<2>(base_pixel, src_ptr.add(2).read_unaligned() as i32);
     let lo = _mm_unpacklo_epi8(m_vl, _mm_setzero_si128());
     _mm_dot16_avx_epi32::<HAS_DOT>(
-- 
2.43.0


From c5ed12e007a6fd4b28bd211effc2bb32621bc89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 02/47] fix: SSE u8 vertical pass scales the 32-wide sums down
 before packing

---
 src/sse/vertical_u8.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sse/vertical_u8.rs b/src/sse/vertical_u8.rs
index 060901e..670512f 100644
--- a/src/sse/vertical_u8.rs
+++ b/src/sse/vertical_u8.rs
@@ -140,15 +140,27 @@ pub(crate) unsafe fn convolve_vertical_part_sse_32(
             dot_prod(store_4, store_5, store_6, store_7, item_row_1, v_weight);
     }
 
-    let rgb0 = _mm_packs_epi32(store_0, store_1);
-    let rgb2 = _mm_packs_epi32(store_2, store_3);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_0),
+        _mm_srai_epi32::<PRECISION>(store_1),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_2),
+        _mm_srai_epi32::<PRECISION>(store_3),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut(px..);
     _mm_storeu_si128(dst_ptr.as_mut_ptr() as *mut __m128i, rgb);
 
-    let rgb0 = _mm_packs_epi32(store_4, store_5);
-    let rgb2 = _mm_packs_epi32(store_6, store_7);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_4),
+        _mm_srai_epi32::<PRECISION>(store_5),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_6),
+        _mm_srai_epi32::<PRECISION>(store_7),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut((px + 16)..);
-- 
2.43.0


From ca203f9fe777d2df92daadf74511e406437f654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 03/47] fix: scalar fixed point vertical pass rounds like the
 horizontal one

---
 src/fixed_point_vertical.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fixed_point_vertical.rs b/src/fixed_point_vertical.rs
index 49ed888..5e830de 100644
--- a/src/fixed_point_vertical.rs
+++ b/src/fixed_point_vertical.rs
@@ -28,6 +28,7 @@
  */
 use crate::filter_weights::FilterBounds;
 use crate::saturate_narrow::SaturateNarrow;
+use crate::support::ROUNDING_CONST;
 use num_traits::AsPrimitive;
 use std::ops::{AddAssign, Mul};
 
@@ -54,7 +55,7 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
@@ -108,8 +109,8 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer_double<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store0: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store1: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store0: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store1: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
@@ -177,10 +178,10 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer_four<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store0: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store1: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store2: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store3: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store0: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store1: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store2: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store3: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
-- 
2.43.0


From 57c160219ae74b1c178451cdcdfeffa5ea31691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 04/47] fix: jinc based kernels weigh the centre tap by their
 limit at zero

---
 src/math/bessel_order_one.rs | 4 ++--
 src/math/lanczos.rs          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/bessel_order_one.rs b/src/math/bessel_order_one.rs
index 5193d70..aaa1626 100644
--- a/src/math/bessel_order_one.rs
+++ b/src/math/bessel_order_one.rs
@@ -320,7 +320,7 @@ fn qone(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f64(x: f64) -> f64 {
     if x == 0f64 {
-        return 0f64;
+        return 0.5f64;
     }
     j1(x) / x
 }
@@ -328,7 +328,7 @@ pub fn jinc_f64(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f32(x: f32) -> f32 {
     if x == 0f32 {
-        return 0f32;
+        return 0.5f32;
     }
     (j1(x as f64) / x as f64) as f32
 }
diff --git a/src/math/lanczos.rs b/src/math/lanczos.rs
index e5d255a..ead1bb6 100644
--- a/src/math/lanczos.rs
+++ b/src/math/lanczos.rs
@@ -45,7 +45,7 @@ where
     f64: AsPrimitive<V>,
 {
     let scale_a: V = 1f32.as_() / a;
-    if x == 0f32.as_() || x > 16.247661874700962f32.as_() {
+    if x > 16.247661874700962f32.as_() {
         return 0f32.as_();
     }
     if x.abs() < a {
-- 
2.43.0


From 89aa548e030c86b73bd9a4200f7aa80493e8a26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 05/47] fix: a destination pixel whose kernel weights vanish
 takes the closest source pixel

---
 src/scaler.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scaler.rs b/src/scaler.rs
index 1b4d94f..db9b3db 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -482,6 +482,10 @@ impl Scaler {
                     {
                         *dst = *src * recpeq;
                     }
+                } else if size > 0 {
+                    // Every tap fell on a zero of the kernel, take the closest source pixel
+                    let nearest: usize = center.round().max(0f32.as_()).as_();
+                    weights[filter_position + nearest.clamp(start, end - 1) - start] = 1f32.as_();
                 }
 
                 filter_position += kernel_size;
-- 
2.43.0


From 500fd6d498b9306ae7a6f75b64126d53f155e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 06/47] fix: AVX2 RGBA u8 horizontal pass weighs alpha of the
 fifth tap with its own weight

---
 src/avx2/rgba_u8_lb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx2/rgba_u8_lb.rs b/src/avx2/rgba_u8_lb.rs
index d9663d3..fd4267e 100644
--- a/src/avx2/rgba_u8_lb.rs
+++ b/src/avx2/rgba_u8_lb.rs
@@ -154,7 +154,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_4_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
@@ -363,7 +363,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_one_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
-- 
2.43.0


From a8d5cb64e48c75bd65d18584b5f0499d65bb9651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 07/47] fix: AVX2 RGBA u8 horizontal pass is only dispatched to
 where AVX2 exists

---
 src/rgba_u8.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rgba_u8.rs b/src/rgba_u8.rs
index fc6c4a6..0336411 100644
--- a/src/rgba_u8.rs
+++ b/src/rgba_u8.rs
@@ -112,7 +112,8 @@ impl HorizontalConvolutionPass<u8, 4> for ImageStore<'_, u8, 4> {
         }
         #[cfg(all(target_arch = "x86_64", feature = "avx"))]
         {
-            if (std::arch::is_x86_feature_detected!("avx2") || _scale_factor < 8.)
+            if std::arch::is_x86_feature_detected!("avx2")
+                && _scale_factor < 8.
                 && _options.workload_strategy == crate::WorkloadStrategy::PreferSpeed
             {
                 _dispatcher_4_rows = Some(convolve_horizontal_rgba_avx_rows_4_lb);
-- 
2.43.0


From b13e8bcfd0e813e663d820a6f992ce2431e807be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 08/47] fix: a store whose stride is zero means a tightly
 packed image, as documented

---
 src/image_store.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index b1b1bb0..0a678b5 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -229,8 +229,11 @@ where
                 slice_len: self.buffer.borrow().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        if self.stride() < self.width.saturating_mul(N) {
+            return Err(PicScaleError::InvalidStride(
+                self.width.saturating_mul(N),
+                self.stride(),
+            ));
         }
         Ok(())
     }
@@ -251,8 +254,11 @@ where
                 slice_len: self.buffer.as_ref().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        if self.stride() < self.width.saturating_mul(N) {
+            return Err(PicScaleError::InvalidStride(
+                self.width.saturating_mul(N),
+                self.stride(),
+            ));
         }
         Ok(())
     }
-- 
2.43.0


From 3db830f9e6d7bc06df11af668a7e2849b9160926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 09/47] fix: a stride times height that overflows no longer
 passes for a small buffer

---
 src/image_store.rs | 8 ++++----
 src/resize_ar30.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 0a678b5..c0558d3 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -219,8 +219,8 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
-        let expected_size = self.stride() * self.height;
-        if self.buffer.borrow().len() != self.stride() * self.height {
+        let expected_size = self.stride().saturating_mul(self.height);
+        if self.buffer.borrow().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
@@ -244,8 +244,8 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
-        let expected_size = self.stride() * self.height;
-        if self.buffer.as_ref().len() != self.stride() * self.height {
+        let expected_size = self.stride().saturating_mul(self.height);
+        if self.buffer.as_ref().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 281abf2..12d138d 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -56,9 +56,9 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::DestinationImageIsTooLarge);
     }
 
-    if src.len() != src_stride * src_size.height {
+    if src.len() != src_stride.saturating_mul(src_size.height) {
         return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
-            expected: src_stride * src_size.height,
+            expected: src_stride.saturating_mul(src_size.height),
             width: src_size.width,
             height: src_size.height,
             channels: 4,
@@ -69,9 +69,9 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::InvalidStride(src_size.width * 4, src_stride));
     }
 
-    if dst.len() != dst_stride * dst_size.height {
+    if dst.len() != dst_stride.saturating_mul(dst_size.height) {
         return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
-            expected: dst_stride * dst_size.height,
+            expected: dst_stride.saturating_mul(dst_size.height),
             width: dst_size.width,
             height: dst_size.height,
             channels: 4,
-- 
2.43.0


From d32a2e63986207506433c51c6abf0fcc663c48b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 10/47] fix: store constructors reject dimensions whose product
 overflows

---
 src/image_store.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index c0558d3..99e0489 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -131,8 +131,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -156,8 +156,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -276,8 +276,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -304,8 +304,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -410,8 +410,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -477,8 +477,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
-- 
2.43.0


From 15ca22a97db3c9c944f97d3f49eef56beaee49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 11/47] fix: copies of a padded store keep the stride of the
 buffer they copy

---
 src/image_store.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 99e0489..1fe239e 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -436,7 +436,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -503,7 +503,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -514,7 +514,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
-- 
2.43.0


From b06dfd08d0290df96c7c82833a517286f388cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 12/47] fix: copying into a padded store leaves its padding
 alone

---
 src/image_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 1fe239e..5ea7f93 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -443,13 +443,14 @@ where
 
     pub fn copied_to_mut(&self, into: &mut ImageStoreMut<T, N>) {
         let into_stride = into.stride();
+        let row_length = self.width * N;
         for (src_row, dst_row) in self
             .buffer
             .as_ref()
             .chunks_exact(self.stride())
             .zip(into.buffer.borrow_mut().chunks_exact_mut(into_stride))
         {
-            for (&src, dst) in src_row.iter().zip(dst_row.iter_mut()) {
+            for (&src, dst) in src_row.iter().take(row_length).zip(dst_row.iter_mut()) {
                 *dst = src;
             }
         }
-- 
2.43.0


From 2fd456e17bc527d080e97ae211b6768bc5b29608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 13/47] fix: nearest sampling honours the strides of source and
 destination

---
 src/nearest_sampler.rs | 16 ++++++++++++----
 src/resize_ar30.rs     |  2 ++
 src/scaler.rs          |  6 ++++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 945d5bb..a05457f 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -31,11 +31,14 @@ use rayon::iter::{IndexedParallelIterator, ParallelIterator};
 use rayon::prelude::ParallelSliceMut;
 use rayon::ThreadPool;
 
+#[allow(clippy::too_many_arguments)]
 pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     src: &[T],
+    src_stride: usize,
     src_width: usize,
     src_height: usize,
     dst: &mut [T],
+    dst_stride: usize,
     dst_width: usize,
     dst_height: usize,
     pool: &Option<ThreadPool>,
@@ -46,15 +49,17 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     let clip_width = src_width as f32 - 1f32;
     let clip_height = src_height as f32 - 1f32;
 
-    let dst_stride = dst_width * CHANNELS;
-    let src_stride = src_width * CHANNELS;
+    let dst_row_length = dst_width * CHANNELS;
 
     if let Some(pool) = pool {
         pool.install(|| {
             dst.par_chunks_exact_mut(dst_stride)
                 .enumerate()
                 .for_each(|(y, dst_chunk)| {
-                    for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                    for (x, dst) in dst_chunk[..dst_row_length]
+                        .chunks_exact_mut(CHANNELS)
+                        .enumerate()
+                    {
                         let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                             .min(clip_width)
                             .max(0f32) as usize;
@@ -77,7 +82,10 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
         dst.chunks_exact_mut(dst_stride)
             .enumerate()
             .for_each(|(y, dst_chunk)| {
-                for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                for (x, dst) in dst_chunk[..dst_row_length]
+                    .chunks_exact_mut(CHANNELS)
+                    .enumerate()
+                {
                     let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                         .min(clip_width)
                         .max(0f32) as usize;
diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 12d138d..4105d09 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -97,9 +97,11 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         resize_nearest::<u8, 4>(
             src,
             src_stride,
+            src_size.width,
             src_size.height,
             dst,
             dst_stride,
+            dst_size.width,
             dst_size.height,
             &pool,
         );
diff --git a/src/scaler.rs b/src/scaler.rs
index db9b3db..471b3fd 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -614,11 +614,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let into_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                into_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
@@ -905,11 +908,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let into_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                into_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
-- 
2.43.0


From 91246e8ebb4bc12d524fe8232b15275d10c3269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 14/47] fix: nearest sampling takes the pixel that contains the
 sample position

---
 src/nearest_sampler.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index a05457f..bed4bf7 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -60,10 +60,12 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
                         .chunks_exact_mut(CHANNELS)
                         .enumerate()
                     {
-                        let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
+                        let src_x = ((x as f32 + 0.5f32) * x_scale - 1f32)
+                            .ceil()
                             .min(clip_width)
                             .max(0f32) as usize;
-                        let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
+                        let src_y = ((y as f32 + 0.5f32) * y_scale - 1f32)
+                            .ceil()
                             .min(clip_height)
                             .max(0f32) as usize;
                         let src_offset_y = src_y * src_stride;
@@ -86,10 +88,12 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
                     .chunks_exact_mut(CHANNELS)
                     .enumerate()
                 {
-                    let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
+                    let src_x = ((x as f32 + 0.5f32) * x_scale - 1f32)
+                        .ceil()
                         .min(clip_width)
                         .max(0f32) as usize;
-                    let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
+                    let src_y = ((y as f32 + 0.5f32) * y_scale - 1f32)
+                        .ceil()
                         .min(clip_height)
                         .max(0f32) as usize;
                     let src_offset_y = src_y * src_stride;
-- 
2.43.0


From 305b737fea42081f629bcb53a557be172d6fbaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 15/47] fix: vertical only resize of packed 10-bit images uses
 the destination's stride

---
 src/resize_ar30.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 4105d09..dc81dd8 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -121,7 +121,7 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
             src_stride,
             vertical_filters,
             dst,
-            src_stride,
+            dst_stride,
             &pool,
             src_size.width,
             options,
-- 
2.43.0


From 364bbb1429e3224ca7999cfe30acfdf7b900e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 16/47] fix: same size copy of packed 10-bit images honours
 both strides

---
 src/resize_ar30.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index dc81dd8..29708ae 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -83,8 +83,12 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
     }
 
     if src_size.width == dst_size.width && src_size.height == dst_size.height {
-        for (src, dst) in src.iter().zip(dst.iter_mut()) {
-            *dst = *src;
+        let row_length = src_size.width * 4;
+        for (src_row, dst_row) in src
+            .chunks_exact(src_stride)
+            .zip(dst.chunks_exact_mut(dst_stride))
+        {
+            dst_row[..row_length].copy_from_slice(&src_row[..row_length]);
         }
         return Ok(());
     }
-- 
2.43.0


From 7179e73a86504de35c26a31430fb151fc25f59f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 17/47] fix: colours that were not premultiplied are not
 divided by alpha after the resize

---
 src/scaler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index 471b3fd..6df83d2 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -692,7 +692,7 @@ impl Scaler {
         let mut src_store: std::borrow::Cow<'_, ImageStore<'_, T, N>> =
             std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -769,7 +769,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -826,7 +826,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
-- 
2.43.0


From e74f95292912309976cca3e1bb991b25ecbf697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 18/47] fix: adaptive thread count does not wrap around for
 huge sizes

---
 src/threading_policy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/threading_policy.rs b/src/threading_policy.rs
index a83ec59..04ddcbf 100644
--- a/src/threading_policy.rs
+++ b/src/threading_policy.rs
@@ -58,7 +58,7 @@ impl ThreadingPolicy {
         match self {
             ThreadingPolicy::Single => 1,
             ThreadingPolicy::Fixed(thread_count) => (*thread_count).max(1),
-            ThreadingPolicy::Adaptive => (for_size.width * for_size.height / (256 * 256))
+            ThreadingPolicy::Adaptive => (for_size.width.saturating_mul(for_size.height) / (256 * 256))
                 .clamp(1, Self::available_parallelism()),
         }
     }
-- 
2.43.0


From 92b1f9cf1957fb59cd96ac9af7b47a0e9b365ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 19/47] fix: u16 vertical passes resume after the last full
 block, not at its start

---
 src/avx2/vertical_u16_lb.rs | 8 ++++----
 src/sse/vertical_u16.rs     | 6 +++---
 src/sse/vertical_u16_lb.rs  | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/avx2/vertical_u16_lb.rs b/src/avx2/vertical_u16_lb.rs
index 6319eb0..a8a94c0 100644
--- a/src/avx2/vertical_u16_lb.rs
+++ b/src/avx2/vertical_u16_lb.rs
@@ -161,7 +161,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             item1,
         );
 
-        cx = v_dx;
+        cx = v_dx + 32;
     }
 
     let v_px = cx;
@@ -202,7 +202,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
 
         _mm256_storeu_si256(dst.as_mut_ptr() as *mut __m256i, item0);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -240,7 +240,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             _mm256_castsi256_si128(item),
         );
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -371,7 +371,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors_sse);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 542a93a..7da26b1 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -152,7 +152,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -192,7 +192,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let item = _mm_packus_epi32(v_st0, v_st1);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -335,7 +335,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let u_store0 = _mm_packus_epi32(v_st, v_st);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16_lb.rs b/src/sse/vertical_u16_lb.rs
index 1ee9d9b..40fa5c8 100644
--- a/src/sse/vertical_u16_lb.rs
+++ b/src/sse/vertical_u16_lb.rs
@@ -119,7 +119,7 @@ unsafe fn convolve_column_lb_u16_impl(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -157,7 +157,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let item = _mm_min_epi16(_mm_packus_epi32(v_st0, v_st1), v_max_colors);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -278,7 +278,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
-- 
2.43.0


From 84ae0e714d8eda6f4bda2c5ef7c701cf6d59f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 20/47] fix: SSE u16 RGBA single row pass feeds each of two and
 four taps its own pixel

---
 src/sse/rgba_u16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgba_u16.rs b/src/sse/rgba_u16.rs
index 78d1574..afc9c38 100644
--- a/src/sse/rgba_u16.rs
+++ b/src/sse/rgba_u16.rs
@@ -70,7 +70,7 @@ unsafe fn conv_horiz_rgba_2_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel, _mm_setzero_si128())),
         w1,
     )
 }
@@ -108,7 +108,7 @@ unsafe fn conv_horiz_rgba_4_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel0, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel0, _mm_setzero_si128())),
         w0,
     )
 }
-- 
2.43.0


From 0a2221d35906130d5c16454f5c253e40baf7a039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 21/47] fix: SSE f32 plane single row pass steps over all of
 the sixteen taps it added

---
 src/sse/plane_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sse/plane_f32.rs b/src/sse/plane_f32.rs
index 7c83a9a..c80c729 100644
--- a/src/sse/plane_f32.rs
+++ b/src/sse/plane_f32.rs
@@ -186,7 +186,7 @@ unsafe fn convolve_horizontal_plane_sse_row_one_impl<const FMA: bool>(
             let read_weights3 = _mm_loadu_ps(ptr.add(12));
             let weights = (read_weights0, read_weights1, read_weights2, read_weights3);
             store = conv_horiz_plane_16_f32!(bounds_start, src, weights, store, FMA);
-            jx += 8;
+            jx += 16;
         }
 
         while jx + 8 < bounds.size {
-- 
2.43.0


From 742b0a9da3dbbe7d1371944047e7f08fc0563785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 22/47] fix: scalar floating point passes round integer results
 to nearest instead of up

---
 src/mixed_storage.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mixed_storage.rs b/src/mixed_storage.rs
index 3c14ccc..4ef4208 100644
--- a/src/mixed_storage.rs
+++ b/src/mixed_storage.rs
@@ -35,7 +35,7 @@ impl MixedStorage<u8> for f32 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, _: u32) -> u8 {
-        self.ceil().max(0.).min(255.) as u8
+        self.round().max(0.).min(255.) as u8
     }
 }
 
@@ -43,7 +43,7 @@ impl MixedStorage<u8> for f64 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, _: u32) -> u8 {
-        self.ceil().max(0.).min(255.) as u8
+        self.round().max(0.).min(255.) as u8
     }
 }
 
@@ -51,7 +51,7 @@ impl MixedStorage<u16> for f32 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, bit_depth: u32) -> u16 {
-        self.ceil().max(0.).min(((1 << bit_depth) - 1) as f32) as u16
+        self.round().max(0.).min(((1 << bit_depth) - 1) as f32) as u16
     }
 }
 
@@ -71,7 +71,7 @@ impl MixedStorage<u16> for f64 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, bit_depth: u32) -> u16 {
-        self.ceil().max(0.).min(((1 << bit_depth) - 1) as f64) as u16
+        self.round().max(0.).min(((1 << bit_depth) - 1) as f64) as u16
     }
 }
 
-- 
2.43.0


From 226379512f7d8026f590fcdb5d1a5b3b73cbd108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 23/47] fix: SSE u16 vertical pass rounds the last columns to
 nearest like the others

---
 src/sse/vertical_u16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 7da26b1..be6db82 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -408,6 +408,6 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
             }
         }
 
-        *dst = store0.ceil().max(0.).min(max_colors as f32) as u16;
+        *dst = store0.round().max(0.).min(max_colors as f32) as u16;
     }
 }
-- 
2.43.0


From 7f8367444abae57a40a16f5fcbd4daaf74adfd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 24/47] fix: scalar alpha premultiplication leaves the alpha
 channel itself alone

---
 src/alpha_handle_u16.rs | 9 ++++-----
 src/alpha_handle_u8.rs  | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 92a4880..625203c 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -71,7 +71,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_1023(src[0] as u32 * a);
             dst[1] = div_by_1023(src[1] as u32 * a);
             dst[2] = div_by_1023(src[2] as u32 * a);
-            dst[3] = div_by_1023(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else if max_colors == 4096 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
@@ -79,7 +79,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_4095(src[0] as u32 * a);
             dst[1] = div_by_4095(src[1] as u32 * a);
             dst[2] = div_by_4095(src[2] as u32 * a);
-            dst[3] = div_by_4095(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else if max_colors == 65535 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
@@ -87,7 +87,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_65535(src[0] as u32 * a);
             dst[1] = div_by_65535(src[1] as u32 * a);
             dst[2] = div_by_65535(src[2] as u32 * a);
-            dst[3] = div_by_65535(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else {
         let recip_max_colors = 1. / max_colors as f32;
@@ -99,7 +99,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
                 (((src[1] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
             dst[2] =
                 (((src[2] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[3] = (((a * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+            dst[3] = src[3];
         }
     }
 }
@@ -112,7 +112,6 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
             dst[0] = ((dst[0] as u32 * max_colors) as f32 * a_recip) as u16;
             dst[1] = ((dst[1] as u32 * max_colors) as f32 * a_recip) as u16;
             dst[2] = ((dst[2] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[3] = ((a * max_colors) as f32 * a_recip) as u16;
         }
     }
 }
diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index ada0cc9..6f37278 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -52,7 +52,7 @@ pub(crate) fn premultiply_alpha_rgba_row_impl(dst: &mut [u8], src: &[u8]) {
         dst[0] = div_by_255(src[0] as u16 * a);
         dst[1] = div_by_255(src[1] as u16 * a);
         dst[2] = div_by_255(src[2] as u16 * a);
-        dst[3] = div_by_255(a * a);
+        dst[3] = src[3];
     }
 }
 
-- 
2.43.0


From 97e2c4393ac8f5fafb831426cbe7aee1c961abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 25/47] fix: scalar u8 unpremultiplication table has a row per
 alpha and saturates

---
 src/alpha_handle_u8.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index 6f37278..a7119b2 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -89,10 +89,11 @@ const fn make_unpremultiplication_table() -> [u8; 65536] {
         let mut pixel = 0usize;
         while pixel < 256 {
             if alpha == 0 {
-                buf[alpha * 255 + pixel] = 0;
+                buf[alpha * 256 + pixel] = 0;
             } else {
                 let value = (pixel * 255 + alpha / 2) / alpha;
-                buf[alpha * 255 + pixel] = value as u8;
+                let value = if value > 255 { 255 } else { value };
+                buf[alpha * 256 + pixel] = value as u8;
             }
             pixel += 1;
         }
@@ -107,7 +108,7 @@ static UNPREMULTIPLICATION_TABLE: [u8; 65536] = make_unpremultiplication_table()
 pub(crate) fn unpremultiply_alpha_rgba_row_impl(in_place: &mut [u8]) {
     for dst in in_place.chunks_exact_mut(4) {
         let a = dst[3];
-        let z = a as u16 * 255;
+        let z = a as u16 * 256;
         dst[0] = UNPREMULTIPLICATION_TABLE[(z + dst[0] as u16) as usize];
         dst[1] = UNPREMULTIPLICATION_TABLE[(z + dst[1] as u16) as usize];
         dst[2] = UNPREMULTIPLICATION_TABLE[(z + dst[2] as u16) as usize];
-- 
2.43.0


From adbefbb96a6e98207e01cb508f3dac8d27765a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 26/47] fix: scalar u16 alpha handling rounds to nearest and
 stays within the bit depth

---
 src/alpha_handle_u16.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 625203c..22755a0 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -73,7 +73,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[2] = div_by_1023(src[2] as u32 * a);
             dst[3] = src[3];
         }
-    } else if max_colors == 4096 {
+    } else if max_colors == 4095 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
             dst[0] = div_by_4095(src[0] as u32 * a);
@@ -93,12 +93,15 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
         let recip_max_colors = 1. / max_colors as f32;
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
-            dst[0] =
-                (((src[0] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[1] =
-                (((src[1] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[2] =
-                (((src[2] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+            dst[0] = ((src[0] as u32 * a) as f32 * recip_max_colors)
+                .round()
+                .min(max_colors as f32) as u16;
+            dst[1] = ((src[1] as u32 * a) as f32 * recip_max_colors)
+                .round()
+                .min(max_colors as f32) as u16;
+            dst[2] = ((src[2] as u32 * a) as f32 * recip_max_colors)
+                .round()
+                .min(max_colors as f32) as u16;
             dst[3] = src[3];
         }
     }
@@ -109,9 +112,15 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
         let a = dst[3] as u32;
         if a != 0 {
             let a_recip = 1. / a as f32;
-            dst[0] = ((dst[0] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[1] = ((dst[1] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[2] = ((dst[2] as u32 * max_colors) as f32 * a_recip) as u16;
+            dst[0] = ((dst[0] as u32 * max_colors) as f32 * a_recip)
+                .round()
+                .min(max_colors as f32) as u16;
+            dst[1] = ((dst[1] as u32 * max_colors) as f32 * a_recip)
+                .round()
+                .min(max_colors as f32) as u16;
+            dst[2] = ((dst[2] as u32 * max_colors) as f32 * a_recip)
+                .round()
+                .min(max_colors as f32) as u16;
         }
     }
 }
-- 
2.43.0


From 73ee81beedb9920494b819d385b3718d913e2d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 27/47] fix: SSE u16 unpremultiplication stays on the calling
 thread without a pool

---
 src/sse/alpha_u16.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index a20897d..5162389 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -219,15 +219,13 @@ unsafe fn unpremultiply_alpha_sse_rgba_u16_impl(
                 });
         });
     } else {
-        in_place
-            .par_chunks_exact_mut(stride)
-            .for_each(|row| unsafe {
-                unpremultiply_alpha_sse_rgba_u16_row_impl(
-                    &mut row[..width * 4],
-                    bit_depth,
-                    DisassociateAlphaDefault::default(),
-                );
-            });
+        in_place.chunks_exact_mut(stride).for_each(|row| unsafe {
+            unpremultiply_alpha_sse_rgba_u16_row_impl(
+                &mut row[..width * 4],
+                bit_depth,
+                DisassociateAlphaDefault::default(),
+            );
+        });
     }
 }
 
-- 
2.43.0


From 533ccd1c306da744e4e68ba0a9c5e6306213e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 28/47] fix: SIMD u16 premultiplication multiplies 16-bit
 values without sign

---
 src/avx2/alpha_u16.rs | 12 ++++++------
 src/sse/alpha_u16.rs  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 1a0a0b3..3157811 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -154,12 +154,12 @@ impl<const BIT_DEPTH: usize> Avx2PremultiplyExecutorDefault<BIT_DEPTH> {
         let bl32 = _mm256_unpacklo_epi16(pixel.2, zeros);
         let bh32 = _mm256_unpackhi_epi16(pixel.2, zeros);
 
-        let rl32 = _mm256_madd_epi16(rl32, low_alpha);
-        let rh32 = _mm256_madd_epi16(rh32, high_alpha);
-        let gl32 = _mm256_madd_epi16(gl32, low_alpha);
-        let gh32 = _mm256_madd_epi16(gh32, high_alpha);
-        let bl32 = _mm256_madd_epi16(bl32, low_alpha);
-        let bh32 = _mm256_madd_epi16(bh32, high_alpha);
+        let rl32 = _mm256_mullo_epi32(rl32, low_alpha);
+        let rh32 = _mm256_mullo_epi32(rh32, high_alpha);
+        let gl32 = _mm256_mullo_epi32(gl32, low_alpha);
+        let gh32 = _mm256_mullo_epi32(gh32, high_alpha);
+        let bl32 = _mm256_mullo_epi32(bl32, low_alpha);
+        let bh32 = _mm256_mullo_epi32(bh32, high_alpha);
 
         let lr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rl32);
         let hr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rh32);
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index 5162389..dc4960f 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -310,16 +310,16 @@ impl<const BIT_DEPTH: usize> Sse41PremultiplyExecutorDefault<BIT_DEPTH> {
         let a_hi_f = _mm_unpackhi_epi16(aaaa, zeros);
 
         let new_rrrr = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
         );
         let new_gggg = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
         );
         let new_bbbb = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
         );
 
         let (rgba0, rgba1, rgba2, rgba3) =
-- 
2.43.0


From 3263cf70ca90ee8b21bdff5d005d68ae30a7a1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 29/47] fix: SIMD u16 alpha scaling rounds once and stays
 within the bit depth

---
 src/avx2/alpha_u16.rs | 50 ++++++++++++++++++-------------------------
 src/sse/alpha_u16.rs  | 17 ++++++++-------
 2 files changed, 30 insertions(+), 37 deletions(-)

diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 3157811..296e971 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -39,10 +39,11 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 #[inline(always)]
-unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
+unsafe fn _mm256_scale_by_alpha(
     px: __m256i,
     low_low_a: __m256,
     low_high_a: __m256,
+    v_max_colors: __m256,
 ) -> __m256i {
     let zeros = _mm256_setzero_si256();
     let ls = _mm256_unpacklo_epi16(px, zeros);
@@ -51,21 +52,11 @@ unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
     let low_px = _mm256_cvtepi32_ps(ls);
     let high_px = _mm256_cvtepi32_ps(hs);
 
-    let (lvs, hvs);
+    let lvs = _mm256_mul_ps(low_px, low_low_a);
+    let hvs = _mm256_mul_ps(high_px, low_high_a);
 
-    if FMA {
-        lvs = _mm256_fmadd_ps(low_px, low_low_a, _mm256_set1_ps(0.5f32));
-        hvs = _mm256_fmadd_ps(high_px, low_high_a, _mm256_set1_ps(0.5f32));
-    } else {
-        let lps = _mm256_mul_ps(low_px, low_low_a);
-        let hps = _mm256_mul_ps(high_px, low_high_a);
-
-        lvs = _mm256_round_ps::<0x00>(lps);
-        hvs = _mm256_round_ps::<0x00>(hps);
-    }
-
-    let new_ll = _mm256_cvtps_epi32(lvs);
-    let new_lh = _mm256_cvtps_epi32(hvs);
+    let new_ll = _mm256_cvtps_epi32(_mm256_min_ps(lvs, v_max_colors));
+    let new_lh = _mm256_cvtps_epi32(_mm256_min_ps(hvs, v_max_colors));
 
     _mm256_packus_epi32(new_ll, new_lh)
 }
@@ -245,10 +236,11 @@ impl Avx2PremultiplyExecutorAnyBit {
 
         let low_alpha = _mm256_mul_ps(lla, scale);
         let high_alpha = _mm256_mul_ps(hla, scale);
+        let v_max_colors = _mm256_set1_ps(u16::MAX as f32);
 
-        let new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
-        let new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
-        let new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_colors);
+        let new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_max_colors);
+        let new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_max_colors);
 
         let dst_ptr = dst.as_mut_ptr();
 
@@ -424,7 +416,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 ) {
     let max_colors = (1 << bit_depth) - 1;
 
-    let v_scale_colors = _mm256_set1_ps(max_colors as f32);
+    let v_max_colors = _mm256_set1_ps(max_colors as f32);
 
     let mut rem = in_place;
 
@@ -444,18 +436,18 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
         let mut low_alpha =
             _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
 
-        low_alpha = _mm256_mul_ps(low_alpha, v_scale_colors);
+        low_alpha = _mm256_mul_ps(low_alpha, v_max_colors);
 
         let mut high_alpha =
             _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
+        high_alpha = _mm256_mul_ps(high_alpha, v_max_colors);
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_max_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_max_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let dst_ptr = dst.as_mut_ptr();
@@ -490,18 +482,18 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
         let mut low_alpha =
             _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
 
-        low_alpha = _mm256_mul_ps(low_alpha, v_scale_colors);
+        low_alpha = _mm256_mul_ps(low_alpha, v_max_colors);
 
         let mut high_alpha =
             _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
+        high_alpha = _mm256_mul_ps(high_alpha, v_max_colors);
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_max_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_max_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let (d_lane0, d_lane1, d_lane2, d_lane3) =
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index dc4960f..6583783 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -43,21 +43,22 @@ unsafe fn sse_unpremultiply_row_u16(
     is_zero_mask: __m128i,
     a_lo_f: __m128,
     a_hi_f: __m128,
+    v_max_colors: __m128,
 ) -> __m128i {
     let zeros = _mm_setzero_si128();
     let lo = _mm_unpacklo_epi16(x, zeros);
     let hi = _mm_unpackhi_epi16(x, zeros);
 
-    let new_lo = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    let new_lo = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(lo), a_lo_f),
+        v_max_colors,
     ));
-    let new_hi = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    let new_hi = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(hi), a_hi_f),
+        v_max_colors,
     ));
 
-    let pixel = _mm_packs_epi32(new_lo, new_hi);
+    let pixel = _mm_packus_epi32(new_lo, new_hi);
     _mm_select_si128(is_zero_mask, x, pixel)
 }
 
@@ -145,9 +146,9 @@ impl DisassociateAlphaDefault {
             v_max_colors,
         );
 
-        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f);
-        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f);
-        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f);
+        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
 
         let (rgba0, rgba1, rgba2, rgba3) =
             sse_interleave_rgba_epi16(new_rrrr, new_gggg, new_bbbb, aaaa);
-- 
2.43.0


From f39c75cbd76d3fe2cf6bc6ff7f290f318639ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 30/47] fix: SIMD u16 unpremultiplication divides instead of
 using a 12-bit reciprocal

---
 src/avx2/alpha_u16.rs | 32 ++++++++++++++++----------------
 src/sse/alpha_u16.rs  | 14 ++++----------
 2 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 296e971..343bb8e 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -433,15 +433,15 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let is_zero_alpha_mask = _mm256_cmpeq_epi16(pixel.3, zeros);
 
-        let mut low_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
-
-        low_alpha = _mm256_mul_ps(low_alpha, v_max_colors);
-
-        let mut high_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
+        let low_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)),
+        );
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_max_colors);
+        let high_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)),
+        );
 
         let mut new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
@@ -479,15 +479,15 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let is_zero_alpha_mask = _mm256_cmpeq_epi16(pixel.3, zeros);
 
-        let mut low_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
-
-        low_alpha = _mm256_mul_ps(low_alpha, v_max_colors);
-
-        let mut high_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
+        let low_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)),
+        );
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_max_colors);
+        let high_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)),
+        );
 
         let mut new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index 6583783..9b01075 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -131,19 +131,13 @@ impl DisassociateAlphaDefault {
         let (rrrr, gggg, bbbb, aaaa) = sse_deinterleave_rgba_epi16(row0, row1, row2, row3);
 
         let is_zero_mask = _mm_cmpeq_epi16(aaaa, _mm_setzero_si128());
-        let a_lo_f = _mm_mul_ps(
-            _mm_rcp_ps(_mm_cvtepi32_ps(_mm_unpacklo_epi16(
-                aaaa,
-                _mm_setzero_si128(),
-            ))),
+        let a_lo_f = _mm_div_ps(
             v_max_colors,
+            _mm_cvtepi32_ps(_mm_unpacklo_epi16(aaaa, _mm_setzero_si128())),
         );
-        let a_hi_f = _mm_mul_ps(
-            _mm_rcp_ps(_mm_cvtepi32_ps(_mm_unpackhi_epi16(
-                aaaa,
-                _mm_setzero_si128(),
-            ))),
+        let a_hi_f = _mm_div_ps(
             v_max_colors,
+            _mm_cvtepi32_ps(_mm_unpackhi_epi16(aaaa, _mm_setzero_si128())),
         );
 
         let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
-- 
2.43.0


From 70defa7123ef6eea1628dee84e08e21a33503520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 31/47] fix: AVX2 u8 alpha premultiplication leaves the alpha
 channel itself alone

---
 src/avx2/alpha_u8.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avx2/alpha_u8.rs b/src/avx2/alpha_u8.rs
index fd28c6c..22a9bf8 100644
--- a/src/avx2/alpha_u8.rs
+++ b/src/avx2/alpha_u8.rs
@@ -85,6 +85,8 @@ impl AssociateAlphaDefault {
         v_hi = avx2_div_by255(la_hi);
 
         let values = _mm256_packus_epi16(v_ll, v_hi);
+        let alpha_mask = _mm256_set1_epi32(0xff00_0000u32 as i32);
+        let values = _mm256_blendv_epi8(values, rgba0, alpha_mask);
 
         let dst_ptr = dst.as_mut_ptr();
         _mm256_storeu_si256(dst_ptr as *mut __m256i, values);
-- 
2.43.0


From 5cc29b4cb84544c4ba5fa31316f60be68ea57d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 32/47] fix: the stride of a store without one does not
 overflow for absurd widths

---
 src/image_store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 5ea7f93..4ddc366 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -367,7 +367,7 @@ where
     #[inline]
     pub fn stride(&self) -> usize {
         if self.stride == 0 {
-            return self.width * N;
+            return self.width.saturating_mul(N);
         }
         self.stride
     }
@@ -383,7 +383,7 @@ where
     #[inline]
     pub fn stride(&self) -> usize {
         if self.stride == 0 {
-            return self.width * N;
+            return self.width.saturating_mul(N);
         }
         self.stride
     }
-- 
2.43.0


From 4e67b56faf933219b2fd363215a964ae33ada4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 33/47] fix: store constructors do not overflow on absurd
 widths

---
 src/image_store.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 4ddc366..0b2e0e7 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -146,7 +146,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
@@ -171,7 +171,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
@@ -291,7 +291,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
@@ -319,7 +319,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
@@ -425,7 +425,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
@@ -493,7 +493,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
-- 
2.43.0


From 98e276305150dd2488ec1c666011a35f6f4113e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 34/47] fix: AR30 single row pass sums all taps

---
 src/fixed_point_horizontal_ar30.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_point_horizontal_ar30.rs b/src/fixed_point_horizontal_ar30.rs
index 8b4b6be..7195955 100644
--- a/src/fixed_point_horizontal_ar30.rs
+++ b/src/fixed_point_horizontal_ar30.rs
@@ -102,7 +102,7 @@ pub(crate) fn convolve_row_handler_fixed_point_ar30<
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 4) * weight4
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 5) * weight5;
         } else {
-            let src_ptr0 = &src[px..(px + bounds_size)];
+            let src_ptr0 = &src[px..(px + bounds_size * CN)];
             for (&k_weight, src) in weights
                 .iter()
                 .zip(src_ptr0.chunks_exact(4))
-- 
2.43.0


From f5cf18efa0a1364df5329a943be5ccc2d855c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 35/47] fix: SSE AR30 single row pass uses the precision of its
 weights

---
 src/sse/horizontal_ar30.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sse/horizontal_ar30.rs b/src/sse/horizontal_ar30.rs
index cb9ef8b..bb4eb01 100644
--- a/src/sse/horizontal_ar30.rs
+++ b/src/sse/horizontal_ar30.rs
@@ -334,7 +334,7 @@ unsafe fn sse_convolve_horizontal_rgba_row_impl<const AR_TYPE: usize, const AR_O
     filter_weights: &FilterWeights<i16>,
 ) {
     unsafe {
-        const PRECISION: i32 = 16;
+        const PRECISION: i32 = 15;
         const ROUNDING: i32 = (1 << (PRECISION - 1)) - 1;
 
         let init = _mm_set1_epi32(ROUNDING);
-- 
2.43.0


From 6dfedd9b0b1ec205df8224394c942f05eb03f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 36/47] fix: SSE AR30 single row pass clamps every channel to
 10 bits

---
 src/sse/horizontal_ar30.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sse/horizontal_ar30.rs b/src/sse/horizontal_ar30.rs
index bb4eb01..0b3040f 100644
--- a/src/sse/horizontal_ar30.rs
+++ b/src/sse/horizontal_ar30.rs
@@ -339,7 +339,7 @@ unsafe fn sse_convolve_horizontal_rgba_row_impl<const AR_TYPE: usize, const AR_O
 
         let init = _mm_set1_epi32(ROUNDING);
 
-        let v_cut_off = _mm_set1_epi32(1023);
+        let v_cut_off = _mm_set1_epi16(1023);
 
         for ((chunk0, &bounds), weights) in dst
             .chunks_exact_mut(4)
-- 
2.43.0


From 8216d0480901a563533e0715ba5ac7ffc8236985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 37/47] fix: SSE AR30 row pass pairs eight pixels with their
 weights

---
 src/sse/u8_utils.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/sse/u8_utils.rs b/src/sse/u8_utils.rs
index c01cfd1..2c64120 100644
--- a/src/sse/u8_utils.rs
+++ b/src/sse/u8_utils.rs
@@ -328,9 +328,5 @@ pub(crate) unsafe fn _mm_unzip_4_ar30_separate<const AR30_TYPE: usize, const AR3
         _mm_unpacklo_epi32(a0.1, a1.1),
         _mm_unpackhi_epi32(a0.1, a1.1),
     );
-    let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
-    let k3 = v2.1;
-    (k0, k1, k2, k3)
+    (v1.0, v1.1, v2.0, v2.1)
 }
-- 
2.43.0


From 4249866fc03e94af27d4ac06b348bd0f31dfc6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 38/47] fix: SSE AR30 row pass pairs four pixels with their
 weights

---
 src/sse/u8_utils.rs | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/sse/u8_utils.rs b/src/sse/u8_utils.rs
index 2c64120..9cd6548 100644
--- a/src/sse/u8_utils.rs
+++ b/src/sse/u8_utils.rs
@@ -284,27 +284,10 @@ pub(crate) unsafe fn _mm_unzips_4_ar30_separate<const AR30_TYPE: usize, const AR
     v: __m128i,
 ) -> (__m128i, __m128i) {
     let values = _mm_unzips_3_ar30::<AR30_TYPE, AR30_ORDER>(v);
-    let a0 = (
-        _mm_unpacklo_epi16(values.0, values.1),
-        _mm_unpackhi_epi16(values.0, values.1),
-    );
-    let a1 = (
-        _mm_unpacklo_epi16(values.2, values.3),
-        _mm_unpackhi_epi16(values.2, values.3),
-    );
-    let v1 = (
-        _mm_unpacklo_epi32(a0.0, a1.0),
-        _mm_unpackhi_epi32(a0.0, a1.0),
-    );
-    let v2 = (
-        _mm_unpacklo_epi32(a0.1, a1.1),
-        _mm_unpackhi_epi32(a0.1, a1.1),
-    );
-    let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
-    let k3 = v2.1;
-    (_mm_unpacklo_epi64(k0, k1), _mm_unpacklo_epi64(k2, k3))
+    let a0 = _mm_unpacklo_epi16(values.0, values.1);
+    let a1 = _mm_unpacklo_epi16(values.2, values.3);
+    let v1 = (_mm_unpacklo_epi32(a0, a1), _mm_unpackhi_epi32(a0, a1));
+    (v1.0, v1.1)
 }
 
 #[inline(always)]
-- 
2.43.0


From af9da2d3667314ac3174a83d788680039b77509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 39/47] fix: colour space scalers honour the strides of both
 images

---
 src/colors/jzazbz_scaler.rs         | 10 ++++++----
 src/colors/lab_scaler.rs            | 10 ++++++----
 src/colors/lch_scaler.rs            | 10 ++++++----
 src/colors/linear_precise_scaler.rs | 10 ++++++----
 src/colors/linear_scaler.rs         | 10 ++++++----
 src/colors/luv_scaler.rs            | 10 ++++++----
 src/colors/oklab_scaler.rs          | 10 ++++++----
 src/colors/sigmoidal_scaler.rs      | 10 ++++++----
 src/colors/xyz_scaler.rs            | 10 ++++++----
 9 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/src/colors/jzazbz_scaler.rs b/src/colors/jzazbz_scaler.rs
index a4d344a..df536d6 100644
--- a/src/colors/jzazbz_scaler.rs
+++ b/src/colors/jzazbz_scaler.rs
@@ -64,7 +64,7 @@ impl JzazbzScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -88,11 +88,12 @@ impl JzazbzScaler {
         store: &ImageStoreMut<'a, f32, 4>,
         into: &mut ImageStoreMut<'a, u8, 4>,
     ) {
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             self.display_luminance,
@@ -151,7 +152,7 @@ impl Scaling for JzazbzScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -176,11 +177,12 @@ impl Scaling for JzazbzScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.display_luminance,
diff --git a/src/colors/lab_scaler.rs b/src/colors/lab_scaler.rs
index cec1421..620eefb 100644
--- a/src/colors/lab_scaler.rs
+++ b/src/colors/lab_scaler.rs
@@ -54,7 +54,7 @@ impl LabScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lab_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -74,11 +74,12 @@ impl LabScaler {
     }
 
     fn laba_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lab_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -138,7 +139,7 @@ impl Scaling for LabScaler {
 
         rgb_to_lab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -162,11 +163,12 @@ impl Scaling for LabScaler {
 
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         lab_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/lch_scaler.rs b/src/colors/lch_scaler.rs
index db1b2d6..7383935 100644
--- a/src/colors/lch_scaler.rs
+++ b/src/colors/lch_scaler.rs
@@ -55,7 +55,7 @@ impl LChScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lch_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -75,11 +75,12 @@ impl LChScaler {
     }
 
     fn lcha_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lch_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -141,7 +142,7 @@ impl Scaling for LChScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_lch(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -166,11 +167,12 @@ impl Scaling for LChScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         lch_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 417c89b..735f942 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearScaler {
 
         rgb_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         linear_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -191,7 +192,7 @@ impl Scaling for LinearScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -215,11 +216,12 @@ impl Scaling for LinearScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         linear_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             TransferFunction::Srgb,
diff --git a/src/colors/linear_scaler.rs b/src/colors/linear_scaler.rs
index 7189346..26dfd87 100644
--- a/src/colors/linear_scaler.rs
+++ b/src/colors/linear_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearApproxScaler {
 
         rgb_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgb(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -195,7 +196,7 @@ impl Scaling for LinearApproxScaler {
 
         rgba_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -218,11 +219,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgba(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/luv_scaler.rs b/src/colors/luv_scaler.rs
index a1df0c8..b52e449 100644
--- a/src/colors/luv_scaler.rs
+++ b/src/colors/luv_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_luv(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -129,11 +129,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -183,7 +184,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_luv_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -208,11 +209,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/oklab_scaler.rs b/src/colors/oklab_scaler.rs
index b74f7c4..7541a7f 100644
--- a/src/colors/oklab_scaler.rs
+++ b/src/colors/oklab_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -128,11 +128,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -181,7 +182,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -205,11 +206,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/sigmoidal_scaler.rs b/src/colors/sigmoidal_scaler.rs
index bf9b963..48d54c5 100644
--- a/src/colors/sigmoidal_scaler.rs
+++ b/src/colors/sigmoidal_scaler.rs
@@ -100,7 +100,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -123,11 +123,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -175,7 +176,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -198,11 +199,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/xyz_scaler.rs b/src/colors/xyz_scaler.rs
index ae8a32e..2e307da 100644
--- a/src/colors/xyz_scaler.rs
+++ b/src/colors/xyz_scaler.rs
@@ -105,7 +105,7 @@ impl Scaling for XYZScaler {
 
         srgb_to_xyz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -127,11 +127,12 @@ impl Scaling for XYZScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -180,7 +181,7 @@ impl Scaling for XYZScaler {
 
         rgba_to_xyz_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -204,11 +205,12 @@ impl Scaling for XYZScaler {
             .resize_rgba_f32(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
-- 
2.43.0


From 77fc2634f4ced55e32be2f4e491da3cadfa8574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:46 +0000
Subject: [PATCH 40/47] fix: LinearScaler uses its transfer function for RGBA

---
 src/colors/linear_precise_scaler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 735f942..7f52731 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -197,7 +197,7 @@ impl Scaling for LinearScaler {
             lab_stride,
             lab_store.width as u32,
             lab_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         let new_immutable_store = ImageStore::<f32, COMPONENTS> {
@@ -224,7 +224,7 @@ impl Scaling for LinearScaler {
             into_stride,
             new_store.width as u32,
             new_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         Ok(())
-- 
2.43.0


From 8f02d0d4e98af9a6e391b3c806a5e5f0ee052f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 41/47] fix: half-float conversion without F16C keeps the sign

---
 src/sse/f16_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sse/f16_utils.rs b/src/sse/f16_utils.rs
index f0e78e2..1fc8dd5 100644
--- a/src/sse/f16_utils.rs
+++ b/src/sse/f16_utils.rs
@@ -174,7 +174,8 @@ unsafe fn _mm_cvtps_ph_fallback(x: __m128) -> __m128i {
         ),
         _mm_set1_epi32(0x7FFF),
     );
-    let packed_32 = _mm_or_si128(_mm_or_si128(j1, j2), sat);
+    let sign = _mm_srli_epi32::<16>(_mm_and_si128(b, _mm_set1_epi32(i32::MIN)));
+    let packed_32 = _mm_or_si128(sign, _mm_or_si128(_mm_or_si128(j1, j2), sat));
     _mm_packus_epi32(packed_32, _mm_setzero_si128())
 }
 
-- 
2.43.0


From 9cf9ea13583c428f4ec366f65d550b2e85423369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 42/47] fix: SIMD half-float unpremultiply divides by alpha

---
 src/avx2/alpha_f16.rs | 12 ++++++------
 src/sse/alpha_f16.rs  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/avx2/alpha_f16.rs b/src/avx2/alpha_f16.rs
index 9cafee2..85632b6 100644
--- a/src/avx2/alpha_f16.rs
+++ b/src/avx2/alpha_f16.rs
@@ -174,17 +174,17 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let zeros = _mm256_setzero_ps();
         let low_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(low_alpha, zeros);
         let low_r = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -192,7 +192,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let high_alpha = _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.3));
         let high_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(high_alpha, zeros);
         let high_r = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.0)),
                 high_alpha,
             ),
@@ -200,7 +200,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_g = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.1)),
                 high_alpha,
             ),
@@ -208,7 +208,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_b = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.2)),
                 high_alpha,
             ),
diff --git a/src/sse/alpha_f16.rs b/src/sse/alpha_f16.rs
index e0c6195..b0e84c2 100644
--- a/src/sse/alpha_f16.rs
+++ b/src/sse/alpha_f16.rs
@@ -227,17 +227,17 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let zeros = _mm_setzero_ps();
         let low_alpha_zero_mask = _mm_cmpeq_ps(low_alpha, zeros);
         let low_r = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -245,7 +245,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let high_alpha = _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.3));
         let high_alpha_zero_mask = _mm_cmpeq_ps(high_alpha, zeros);
         let high_r = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.0)),
                 high_alpha,
             ),
@@ -253,7 +253,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_g = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.1)),
                 high_alpha,
             ),
@@ -261,7 +261,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_b = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.2)),
                 high_alpha,
             ),
-- 
2.43.0


From 9800dbe590f28fef5ca53d6acf165b1832b1ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 43/47] fix: portable half-float horizontal pass leaves row
 padding alone

---
 src/f16.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/f16.rs b/src/f16.rs
index cc0dae9..066f01b 100644
--- a/src/f16.rs
+++ b/src/f16.rs
@@ -67,7 +67,7 @@ use core::{f16, f32};
 use rayon::ThreadPool;
 
 fn convolve_horizontal_rgba_4_row_f16<const CHANNELS: usize>(
-    _: usize,
+    dst_width: usize,
     _: usize,
     filter_weights: &FilterWeights<f32>,
     src: &[f16],
@@ -85,13 +85,18 @@ fn convolve_horizontal_rgba_4_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
-        *dst = *src as f16;
+    for (dst, src) in dst
+        .chunks_exact_mut(dst_stride)
+        .zip(transient_dst.chunks_exact(dst_stride))
+    {
+        for (dst, src) in dst.iter_mut().zip(src.iter()).take(dst_width * CHANNELS) {
+            *dst = *src as f16;
+        }
     }
 }
 
 fn convolve_horizontal_rgb_native_row_f16<const CHANNELS: usize>(
-    _: usize,
+    dst_width: usize,
     _: usize,
     filter_weights: &FilterWeights<f32>,
     src: &[f16],
@@ -105,7 +110,11 @@ fn convolve_horizontal_rgb_native_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
+    for (dst, src) in dst
+        .iter_mut()
+        .zip(transient_dst.iter())
+        .take(dst_width * CHANNELS)
+    {
         *dst = *src as f16;
     }
 }
-- 
2.43.0


From 785bf206cafc074d5c584b4ec8a01872ad56aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:22 +0000
Subject: [PATCH 44/47] fix: AVX-512 premultiply keeps alpha unchanged

---
 src/avx512/alpha_u8.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index a2f15ad..ab7d99f 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -71,7 +71,9 @@ impl AssociateAlphaDefault {
         v_ll = avx512_div_by255(_mm512_mullo_epi16(v_ll, a_lo));
         v_hi = avx512_div_by255(_mm512_mullo_epi16(v_hi, a_hi));
 
-        let values = _mm512_packus_epi16(v_ll, v_hi);
+        // alpha itself stays as it is
+        const ALPHA_MASK: __mmask64 = 0x8888_8888_8888_8888;
+        let values = _mm512_mask_blend_epi8(ALPHA_MASK, _mm512_packus_epi16(v_ll, v_hi), rgba0);
 
         let dst_ptr = dst.as_mut_ptr();
         _mm512_mask_storeu_epi8(dst_ptr as *mut _, working_mask, values);
-- 
2.43.0


From 83e383ac3850233e8f78d49e0ff96efb7b3e9e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:22 +0000
Subject: [PATCH 45/47] fix: AVX-512 constant-alpha check looks at the last
 pixels of a row

---
 src/avx512/check_alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512/check_alpha.rs b/src/avx512/check_alpha.rs
index 32cfd53..8aa974a 100644
--- a/src/avx512/check_alpha.rs
+++ b/src/avx512/check_alpha.rs
@@ -65,7 +65,7 @@ unsafe fn avx512_has_non_constant_cap_alpha_rgba8_impl(
         let row = &row[0..width * 4];
         let mut sums = _mm512_set1_epi32(0);
 
-        for chunk in row.chunks_exact(64) {
+        for chunk in row.chunks(64) {
             let working_mask: __mmask64 = if chunk.len() == 64 {
                 0xffff_ffff_ffff_ffff
             } else {
-- 
2.43.0


From 582153e91f47b96b8174d0216e1d99b64ffb477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:22 +0000
Subject: [PATCH 46/47] fix: VNNI single-row 8-bit pass rounds instead of
 truncating

---
 src/avx512/rgba_u8_dot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512/rgba_u8_dot.rs b/src/avx512/rgba_u8_dot.rs
index c4caa1d..d29cd83 100644
--- a/src/avx512/rgba_u8_dot.rs
+++ b/src/avx512/rgba_u8_dot.rs
@@ -405,7 +405,7 @@ unsafe fn convolve_horizontal_rgba_vnni_rows_one_impl(
 
     let permute_avx_weights = _mm256_setr_epi32(0, 0, 0, 0, 1, 1, 1, 1);
 
-    let vld = _mm_set1_epi32(PRECISION);
+    let vld = _mm_set1_epi32(ROUNDING_CONST);
 
     for ((dst, bounds), weights) in dst
         .chunks_exact_mut(CHANNELS)
-- 
2.43.0


From 9500ec0337866088d85ae7e243d7a22631800628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:00 +0000
Subject: [PATCH 47/47] fix: sampling window lies around the sample position
 instead of half a pixel to its left

---
 src/scaler.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index 6df83d2..63712d2 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -410,15 +410,16 @@ impl Scaler {
                 let mut weights_sum: T = 0f32.as_();
                 let mut local_filter_iteration = 0usize;
 
-                let start: usize = (center_x - filter_radius).floor().max(0f32.as_()).as_();
-                let end: usize = (center_x + filter_radius)
-                    .ceil()
-                    .min(start.as_() + kernel_size.as_())
-                    .min(in_size.as_())
-                    .as_();
-
                 let center = center_x - 0.5.as_();
 
+                // the pixels whose centres are closer than the radius, on either side alike
+                let start: usize = ((center - filter_radius).floor() + 1f32.as_())
+                    .max(0f32.as_())
+                    .as_();
+                let start = start.min(in_size - 1);
+                let end: usize = (center + filter_radius).ceil().max(0f32.as_()).as_();
+                let end = end.max(start + 1).min(start + kernel_size).min(in_size);
+
                 for k in start..end {
                     let dx = k.as_() - center;
                     let weight;
-- 
2.43.0

