From 1fde14c119ced37ede80cf38b72462347612545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 01/18] fix: use the chroma strides for the second row in
 I444Reader

---
 src/formats/i444/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formats/i444/read.rs b/src/formats/i444/read.rs
index e495f0d..944b2cc 100644
--- a/src/formats/i444/read.rs
+++ b/src/formats/i444/read.rs
@@ -45,10 +45,10 @@ impl<P: Primitive> I444Src for I444Reader<'_, P> {
         let y10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
 
         let u00_offset = (y * self.u_stride) + x * P::SIZE;
-        let u10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let u10_offset = ((y + 1) * self.u_stride) + x * P::SIZE;
 
         let v00_offset = (y * self.v_stride) + x * P::SIZE;
-        let v10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let v10_offset = ((y + 1) * self.v_stride) + x * P::SIZE;
 
         // Load Y pixels
         let y00 = P::load::<V>(&self.y[y00_offset..]);
-- 
2.43.0


From 2c41c508e5062b42dcf8e4ba03f7a00bb85da6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 02/18] fix: average the chroma of all four pixels when writing
 subsampled ICtCp

---
 src/color/space.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index 286f6e6..0d07b34 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -337,11 +337,18 @@ unsafe fn bt2100_rgbx4_to_yx4_uv<V: Vector>(
     let yuv10 = f(transfer, rgb_to_xyz, r[2], g[2], b[2]);
     let yuv11 = f(transfer, rgb_to_xyz, r[3], g[3], b[3]);
 
-    let u = yuv00.1.vadd(yuv01.1).vadd(yuv00.1).vadd(yuv00.1);
-    let v = yuv00.2.vadd(yuv01.2).vadd(yuv00.2).vadd(yuv00.2);
+    // Add the upper and lower pixels
+    let u0 = yuv00.1.vadd(yuv10.1);
+    let u1 = yuv01.1.vadd(yuv11.1);
+    let v0 = yuv00.2.vadd(yuv10.2);
+    let v1 = yuv01.2.vadd(yuv11.2);
+
+    // Add the left and right pixels
+    let (u0, u1) = u0.unzip(u1);
+    let (v0, v1) = v0.unzip(v1);
 
-    let u = u.vdivf(4.0);
-    let v = v.vdivf(4.0);
+    let u = u0.vadd(u1).vdivf(4.0);
+    let v = v0.vadd(v1).vdivf(4.0);
 
     ([yuv00.0, yuv01.0, yuv10.0, yuv11.0], u, v)
 }
-- 
2.43.0


From 98c9eacf3779414677d17ea0c6119f267a003943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 03/18] fix: correct the green coefficient of the BT.2020 luma
 matrix

---
 src/color/space.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index 0d07b34..e97f3c5 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -290,7 +290,7 @@ macro_rules! make_matrices {
 make_matrices! {
     BT601_YUV_TO_RGB, BT601_RGB_TO_YUV: 0.299,  0.587,  0.114;
     BT709_YUV_TO_RGB, BT709_RGB_TO_YUV: 0.2126, 0.7152, 0.0722;
-    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.322, 0.0593;
+    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.678, 0.0593;
 }
 
 type BT2100ConvertFn<V> = unsafe fn(ColorTransfer, &[[f32; 3]; 3], V, V, V) -> (V, V, V);
-- 
2.43.0


From 01b8049cb30b339a8985e86efe7e91abe90a9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 04/18] fix: make the SDR transfer function invert itself

---
 src/color/transfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index 319602c..dacd52e 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -176,8 +176,8 @@ mod sdr {
         // a = i / 4.5
         let a = i.vdivf(4.5);
 
-        // b = ((i + 0.0993) / 1.099).powf(1.0 / 0.45)
-        let b = i.vaddf(0.0993).vdivf(1.099).vpowf(1.0 / 0.45);
+        // b = ((i + 0.099) / 1.099).powf(1.0 / 0.45)
+        let b = i.vaddf(0.099).vdivf(1.099).vpowf(1.0 / 0.45);
 
         V::select(a, b, mask)
     }
-- 
2.43.0


From 471de91a2da949e81aa0aa171370810117bb389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 05/18] fix: do not produce NaN for negative values in the
 gamma transfer functions

---
 src/color/transfer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index dacd52e..4f03cf4 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -114,11 +114,17 @@ mod gamma {
 
     #[inline(always)]
     pub(super) unsafe fn linear_to_scaled<const GAMMA: u32, V: Vector>(i: V) -> V {
+        // Avoid producing NaN for negative numbers
+        let i = i.vmaxf(0.0);
+
         i.vpowf(1.0 / (GAMMA as f32 / 10.0))
     }
 
     #[inline(always)]
     pub(super) unsafe fn scaled_to_linear<const GAMMA: u32, V: Vector>(i: V) -> V {
+        // Avoid producing NaN for negative numbers
+        let i = i.vmaxf(0.0);
+
         i.vpowf(GAMMA as f32 / 10.0)
     }
 }
-- 
2.43.0


From 20ea85a7584a46bb54cc7ec97143e446af3e87a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 06/18] fix: do not scale the byte stride by the primitive size
 when cropping

---
 src/crop.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crop.rs b/src/crop.rs
index a43448b..80e015f 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -93,7 +93,7 @@ fn crop_planes<'a, S: AnySlice + 'a>(
                 let y = plane_desc.height_op.op(window.y);
 
                 // First trim the bytes byte "in front" of the window
-                let split_at = (y * stride + x) * plane_desc.bytes_per_primitive;
+                let split_at = y * stride + x * plane_desc.bytes_per_primitive;
                 let (_, slice) = slice.slice_split_at(split_at);
 
                 // Trim the bytes at the end of the window
-- 
2.43.0


From 517baced3eb14da24ab0ef431f00814ef504c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 07/18] fix: allow cropping up to the last row of the parent
 image

The last row of a plane no longer has to be followed by padding up to the stride,
which a window with x > 0 touching the bottom of its parent can never offer.
---
 src/crop.rs         | 6 ++++--
 src/multi_thread.rs | 5 ++++-
 src/pixel_format.rs | 7 +++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/crop.rs b/src/crop.rs
index 80e015f..b61db6b 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -93,11 +93,13 @@ fn crop_planes<'a, S: AnySlice + 'a>(
                 let y = plane_desc.height_op.op(window.y);
 
                 // First trim the bytes byte "in front" of the window
-                let split_at = y * stride + x * plane_desc.bytes_per_primitive;
+                let split_at =
+                    (y * stride + x * plane_desc.bytes_per_primitive).min(slice.slice_len());
                 let (_, slice) = slice.slice_split_at(split_at);
 
                 // Trim the bytes at the end of the window
-                let split_at = plane_desc.height_op.op(window.height) * stride;
+                let split_at =
+                    (plane_desc.height_op.op(window.height) * stride).min(slice.slice_len());
                 let (slice, _) = slice.slice_split_at(split_at);
 
                 (slice, stride)
diff --git a/src/multi_thread.rs b/src/multi_thread.rs
index 91e9bcb..dc68d71 100644
--- a/src/multi_thread.rs
+++ b/src/multi_thread.rs
@@ -106,7 +106,10 @@ pub(crate) fn split_planes<S: AnySlice>(
         let mut out = vec![];
 
         for (plane_desc, (slice, stride)) in plane_decs.iter().zip(&mut planes) {
-            let split_at = stride.strict_mul_(plane_desc.height_op.op(h));
+            // The last row of the plane might not be followed by any padding
+            let split_at = stride
+                .strict_mul_(plane_desc.height_op.op(h))
+                .min(slice.slice_len());
 
             let (prev, rem) = take(slice).slice_split_at(split_at);
             *slice = rem;
diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index e7203a2..fed531b 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -112,8 +112,11 @@ impl PixelFormat {
                     });
                 }
 
-                // Ensure slice is large enough
-                let min_len = stride.strict_mul_(plane.height_op.op(height));
+                // Ensure slice is large enough, the last row doesn't need to be followed by any padding
+                let min_len = match plane.height_op.op(height).checked_sub(1) {
+                    Some(rows) => stride.strict_mul_(rows).strict_add_(min_stride),
+                    None => 0,
+                };
 
                 if min_len > slice.len() {
                     return Err(BoundsCheckError::InvalidPlaneSize {
-- 
2.43.0


From 9de2270003a660215c64781254d412102149dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 08/18] fix: copy exactly the visible rows of every plane

---
 src/copy.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/copy.rs b/src/copy.rs
index de1a71a..db0eb1f 100644
--- a/src/copy.rs
+++ b/src/copy.rs
@@ -18,10 +18,14 @@ pub(crate) fn copy_impl(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<()
     {
         let n = desc.width_op.op(src.width()) * desc.bytes_per_primitive;
 
-        let src_rows = src_plane.chunks_exact(src_stride);
-        let dst_rows = dst_plane.chunks_exact_mut(dst_stride);
+        if n == 0 {
+            continue;
+        }
+
+        let src_rows = src_plane.chunks(src_stride);
+        let dst_rows = dst_plane.chunks_mut(dst_stride);
 
-        for (src_row, dst_row) in src_rows.zip(dst_rows) {
+        for (src_row, dst_row) in src_rows.zip(dst_rows).take(desc.height_op.op(src.height())) {
             dst_row[..n].copy_from_slice(&src_row[..n]);
         }
     }
-- 
2.43.0


From 97fe8f6bb6502c97d1d27464cf960b4d01ddc6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 09/18] fix: resize exactly the visible rows of every plane

---
 src/resize.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/resize.rs b/src/resize.rs
index 624ce29..5647ace 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -58,6 +58,9 @@ impl Resizer {
         let src_width = src.width();
         let dst_width = dst.width();
 
+        let src_height = src.height();
+        let dst_height = dst.height();
+
         let src_planes: Vec<(&[u8], usize)> = src.planes().collect();
         let dst_planes: Vec<(&mut [u8], usize)> = dst.planes_mut().collect();
 
@@ -78,8 +81,16 @@ impl Resizer {
                     let dst_fir_width = plane_desc.width_op.op(dst_width)
                         / (plane_desc.pixel_type.size() / plane_desc.bytes_per_primitive);
 
-                    let src_height = src_plane.len() / src_stride;
-                    let dst_height = dst_plane.len() / dst_stride;
+                    let src_height = plane_desc.height_op.op(src_height);
+                    let dst_height = plane_desc.height_op.op(dst_height);
+
+                    if src_fir_width == 0
+                        || src_height == 0
+                        || dst_fir_width == 0
+                        || dst_height == 0
+                    {
+                        return;
+                    }
 
                     let src = FirAdapterIntoImageView {
                         pixel_type: plane_desc.pixel_type,
@@ -209,7 +220,8 @@ unsafe impl<T: AsRef<[u8]> + Send + Sync, P: InnerPixel> fir::ImageView
     fn iter_rows(&self, start_row: u32) -> impl Iterator<Item = &[Self::Pixel]> {
         self.plane
             .as_ref()
-            .chunks_exact(self.stride)
+            .chunks(self.stride)
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &row[..self.width * P::pixel_type().size()];
@@ -231,7 +243,8 @@ unsafe impl<T: AsRef<[u8]> + AsMut<[u8]> + Send + Sync, P: InnerPixel> fir::Imag
     fn iter_rows_mut(&mut self, start_row: u32) -> impl Iterator<Item = &mut [Self::Pixel]> {
         self.plane
             .as_mut()
-            .chunks_exact_mut(self.stride)
+            .chunks_mut(self.stride)
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &mut row[..self.width * P::pixel_type().size()];
-- 
2.43.0


From c8f9d741aadccd6c889a18b18b7ecb616d7573f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 10/18] fix: return an error from Image::from_buffer if the
 buffer is too small

Planar formats panicked while inferring the planes, before the bounds check got to run.
---
 src/image.rs | 62 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 07ef233..3c018ec 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1,4 +1,5 @@
-use crate::{infer, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat};
+use crate::{AnySlice, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat};
+use std::mem::take;
 
 /// Basic wrapper around any image, implementing the [`ImageRef`] and [`ImageMut`] trait
 #[derive(Debug, Clone)]
@@ -96,6 +97,33 @@ where
     }
 }
 
+/// Split the buffer of an image into its planes
+///
+/// Must not panic if the buffer is too small or strides are missing, since it is called before the bounds check.
+fn split_buffer<'a, S: AnySlice + 'a>(
+    format: PixelFormat,
+    mut buffer: S,
+    height: usize,
+    strides: &'a [usize],
+) -> impl Iterator<Item = (S, usize)> + 'a {
+    format
+        .plane_desc()
+        .iter()
+        .zip(strides)
+        .map(move |(plane_desc, &stride)| {
+            let split_at = plane_desc
+                .height_op
+                .op(height)
+                .saturating_mul(stride)
+                .min(buffer.slice_len());
+
+            let (plane, rem) = take(&mut buffer).slice_split_at(split_at);
+            buffer = rem;
+
+            (plane, stride)
+        })
+}
+
 unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
     fn format(&self) -> PixelFormat {
         self.format
@@ -109,16 +137,12 @@ unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
 
     fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
         match &self.buffer {
-            Buffer::Whole(buffer) => Box::new(
-                infer(
-                    self.format,
-                    buffer.as_ref(),
-                    self.width,
-                    self.height,
-                    Some(&self.strides),
-                )
-                .zip(self.strides.iter().copied()),
-            ),
+            Buffer::Whole(buffer) => Box::new(split_buffer(
+                self.format,
+                buffer.as_ref(),
+                self.height,
+                &self.strides,
+            )),
             Buffer::Split(planes) => Box::new(
                 planes
                     .iter()
@@ -135,16 +159,12 @@ unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
 unsafe impl<S: AsRef<[u8]> + AsMut<[u8]>> ImageMut for Image<S> {
     fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
         match &mut self.buffer {
-            Buffer::Whole(buffer) => Box::new(
-                infer(
-                    self.format,
-                    buffer.as_mut(),
-                    self.width,
-                    self.height,
-                    Some(&self.strides),
-                )
-                .zip(self.strides.iter().copied()),
-            ),
+            Buffer::Whole(buffer) => Box::new(split_buffer(
+                self.format,
+                buffer.as_mut(),
+                self.height,
+                &self.strides,
+            )),
             Buffer::Split(planes) => Box::new(
                 planes
                     .iter_mut()
-- 
2.43.0


From 6941a82f24e70d321e650c7fc82b2c7b37e836e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 11/18] fix: convert_multi_thread must not panic where convert
 doesn't

Empty images and images which don't pass the bounds check made it panic.
---
 src/multi_thread.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/multi_thread.rs b/src/multi_thread.rs
index dc68d71..426acd9 100644
--- a/src/multi_thread.rs
+++ b/src/multi_thread.rs
@@ -4,7 +4,7 @@ use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterato
 
 use crate::{
     convert, convert_same_color_and_pixel_format, plane_decs::PlaneDesc, verify_input_windows,
-    AnySlice, ConvertError, Image, ImageMut, ImageRef, StrictApi,
+    AnySlice, ConvertError, Image, ImageMut, ImageRef, ImageRefExt, StrictApi,
 };
 
 /// Parallelizes [`convert`] using as many threads as there are CPU cores.
@@ -18,15 +18,19 @@ pub fn convert_multi_thread(
         return convert_same_color_and_pixel_format(src, dst);
     }
 
-    let threads = num_cpus::get();
+    src.bounds_check()?;
+    dst.bounds_check()?;
 
-    if threads == 1 {
-        return convert(src, dst);
-    }
+    let threads = num_cpus::get();
 
     let width = src.width();
     let height = src.height();
 
+    // Nothing to split up
+    if threads == 1 || width == 0 || height == 0 {
+        return convert(src, dst);
+    }
+
     let src_format = src.format();
     let dst_format = dst.format();
 
-- 
2.43.0


From 424e7542d591606fa2d1617d14f0f0afd7c04d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 12/18] fix: round to the nearest integer in the scalar and
 neon paths

They truncated while the AVX paths round, so the columns left over by the vectorized
part of a row came out darker than the rest of the image.
---
 src/vector/mod.rs  | 18 ++++++++++--------
 src/vector/neon.rs | 12 ++++++------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index cdbd172..4e9d4a9 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -236,44 +236,46 @@ unsafe impl Vector for f32 {
 
     #[inline(always)]
     unsafe fn write_u8(self, ptr: *mut u8) {
-        ptr.write(self as u8)
+        ptr.write(self.round_ties_even() as u8)
     }
     #[inline(always)]
     unsafe fn write_u8_2x(v0: Self, v1: Self, ptr: *mut u8) {
-        ptr.cast::<[u8; 2]>().write_unaligned([v0 as u8, v1 as u8]);
+        ptr.cast::<[u8; 2]>()
+            .write_unaligned([v0, v1].map(|f| f.round_ties_even() as u8));
     }
     #[inline(always)]
     unsafe fn write_u16(self, ptr: *mut u8) {
-        ptr.cast::<u16>().write_unaligned(self as u16);
+        ptr.cast::<u16>()
+            .write_unaligned(self.round_ties_even() as u16);
     }
     #[inline(always)]
     unsafe fn write_u16_2x(v0: Self, v1: Self, ptr: *mut u8) {
         ptr.cast::<[u16; 2]>()
-            .write_unaligned([v0 as u16, v1 as u16]);
+            .write_unaligned([v0, v1].map(|f| f.round_ties_even() as u16));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_3x_2x_u8(this: [[Self; 3]; 2], ptr: *mut u8) {
         ptr.cast::<[[u8; 3]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u8)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u8)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_3x_2x_u16(this: [[Self; 3]; 2], ptr: *mut u8) {
         ptr.cast::<[[u16; 3]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u16)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u16)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_4x_2x_u8(this: [[Self; 4]; 2], ptr: *mut u8) {
         ptr.cast::<[[u8; 4]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u8)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u8)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_4x_2x_u16(this: [[Self; 4]; 2], ptr: *mut u8) {
         ptr.cast::<[[u16; 4]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u16)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u16)));
     }
 
     #[inline(always)]
diff --git a/src/vector/neon.rs b/src/vector/neon.rs
index 720e74c..b1be751 100644
--- a/src/vector/neon.rs
+++ b/src/vector/neon.rs
@@ -260,11 +260,11 @@ unsafe impl Vector for float32x4_t {
 
 #[inline(always)]
 unsafe fn float32x4x2_to_u8x8(l: float32x4_t, h: float32x4_t) -> [u8; 8] {
-    let l = vcvtq_u32_f32(l);
+    let l = vcvtnq_u32_f32(l);
     let l = vminq_u32(l, vdupq_n_u32(u8::MAX as u32));
     let l = vmovn_u32(l);
 
-    let h = vcvtq_u32_f32(h);
+    let h = vcvtnq_u32_f32(h);
     let h = vminq_u32(h, vdupq_n_u32(u8::MAX as u32));
     let h = vmovn_u32(h);
 
@@ -275,11 +275,11 @@ unsafe fn float32x4x2_to_u8x8(l: float32x4_t, h: float32x4_t) -> [u8; 8] {
 
 #[inline(always)]
 unsafe fn float32x4x2_to_u16x8(l: float32x4_t, h: float32x4_t) -> [u16; 8] {
-    let l = vcvtq_u32_f32(l);
+    let l = vcvtnq_u32_f32(l);
     let l = vminq_u32(l, vdupq_n_u32(u16::MAX as u32));
     let l = vmovn_u32(l);
 
-    let h = vcvtq_u32_f32(h);
+    let h = vcvtnq_u32_f32(h);
     let h = vminq_u32(h, vdupq_n_u32(u16::MAX as u32));
     let h = vmovn_u32(h);
 
@@ -288,7 +288,7 @@ unsafe fn float32x4x2_to_u16x8(l: float32x4_t, h: float32x4_t) -> [u16; 8] {
 
 #[inline(always)]
 unsafe fn float32x4_to_u8x4(i: float32x4_t) -> [u8; 4] {
-    let i = vcvtq_u32_f32(i);
+    let i = vcvtnq_u32_f32(i);
     let i = vminq_u32(i, vdupq_n_u32(255));
     let i = vmovn_u32(i);
 
@@ -301,7 +301,7 @@ unsafe fn float32x4_to_u8x4(i: float32x4_t) -> [u8; 4] {
 
 #[inline(always)]
 unsafe fn float32x4_to_u16x4(i: float32x4_t) -> [u16; 4] {
-    let i = vcvtq_u32_f32(i);
+    let i = vcvtnq_u32_f32(i);
     let i = vminq_u32(i, vdupq_n_u32(u16::MAX as u32));
     let i = vmovn_u32(i);
 
-- 
2.43.0


From a34d519cf0e12c22e7cee798cb0c2a3b0e71dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 13/18] fix: saturate values which exceed the destination's bit
 depth

10 and 12 bit formats were given values above 1023 and 4095, and the AVX paths
turned 8 bit values of 32768 and above into black.
---
 src/formats/i420/write.rs | 12 ++++++------
 src/formats/i422/write.rs | 16 ++++++++--------
 src/formats/i444/write.rs | 28 ++++++++++++++--------------
 src/formats/nv12/write.rs | 12 ++++++------
 src/formats/rgb/write.rs  |  6 +++---
 src/formats/rgba/write.rs |  8 ++++----
 src/formats/yuyv/write.rs | 16 ++++++++--------
 src/vector/avx2.rs        |  4 ++++
 src/vector/avx512.rs      |  4 ++++
 src/vector/mod.rs         | 19 +++++++++++++++++++
 src/vector/neon.rs        |  4 ++++
 11 files changed, 80 insertions(+), 49 deletions(-)

diff --git a/src/formats/i420/write.rs b/src/formats/i420/write.rs
index dec3cef..07ee81d 100644
--- a/src/formats/i420/write.rs
+++ b/src/formats/i420/write.rs
@@ -74,13 +74,13 @@ where
             v,
         } = self.i420_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
+        let y00 = y00.vscale(self.max_value);
+        let y01 = y01.vscale(self.max_value);
+        let y10 = y10.vscale(self.max_value);
+        let y11 = y11.vscale(self.max_value);
 
-        let u = u.vmulf(self.max_value);
-        let v = v.vmulf(self.max_value);
+        let u = u.vscale(self.max_value);
+        let v = v.vscale(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/i422/write.rs b/src/formats/i422/write.rs
index 6cee11b..fd331ed 100644
--- a/src/formats/i422/write.rs
+++ b/src/formats/i422/write.rs
@@ -76,14 +76,14 @@ where
             v1,
         } = self.i422_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
-        let u0 = u0.vmulf(self.max_value);
-        let u1 = u1.vmulf(self.max_value);
-        let v0 = v0.vmulf(self.max_value);
-        let v1 = v1.vmulf(self.max_value);
+        let y00 = y00.vscale(self.max_value);
+        let y01 = y01.vscale(self.max_value);
+        let y10 = y10.vscale(self.max_value);
+        let y11 = y11.vscale(self.max_value);
+        let u0 = u0.vscale(self.max_value);
+        let u1 = u1.vscale(self.max_value);
+        let v0 = v0.vscale(self.max_value);
+        let v1 = v1.vscale(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/i444/write.rs b/src/formats/i444/write.rs
index c685fb7..677ef0d 100644
--- a/src/formats/i444/write.rs
+++ b/src/formats/i444/write.rs
@@ -74,20 +74,20 @@ where
             px11,
         } = block;
 
-        let y00 = px00.y.vmulf(self.max_value);
-        let y01 = px01.y.vmulf(self.max_value);
-        let y10 = px10.y.vmulf(self.max_value);
-        let y11 = px11.y.vmulf(self.max_value);
-
-        let u00 = px00.u.vmulf(self.max_value);
-        let u01 = px01.u.vmulf(self.max_value);
-        let u10 = px10.u.vmulf(self.max_value);
-        let u11 = px11.u.vmulf(self.max_value);
-
-        let v00 = px00.v.vmulf(self.max_value);
-        let v01 = px01.v.vmulf(self.max_value);
-        let v10 = px10.v.vmulf(self.max_value);
-        let v11 = px11.v.vmulf(self.max_value);
+        let y00 = px00.y.vscale(self.max_value);
+        let y01 = px01.y.vscale(self.max_value);
+        let y10 = px10.y.vscale(self.max_value);
+        let y11 = px11.y.vscale(self.max_value);
+
+        let u00 = px00.u.vscale(self.max_value);
+        let u01 = px01.u.vscale(self.max_value);
+        let u10 = px10.u.vscale(self.max_value);
+        let u11 = px11.u.vscale(self.max_value);
+
+        let v00 = px00.v.vscale(self.max_value);
+        let v01 = px01.v.vscale(self.max_value);
+        let v10 = px10.v.vscale(self.max_value);
+        let v11 = px11.v.vscale(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/nv12/write.rs b/src/formats/nv12/write.rs
index 2132080..136ef33 100644
--- a/src/formats/nv12/write.rs
+++ b/src/formats/nv12/write.rs
@@ -70,12 +70,12 @@ where
             v,
         } = self.i420_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
-        let u = u.vmulf(self.max_value);
-        let v = v.vmulf(self.max_value);
+        let y00 = y00.vscale(self.max_value);
+        let y01 = y01.vscale(self.max_value);
+        let y10 = y10.vscale(self.max_value);
+        let y11 = y11.vscale(self.max_value);
+        let u = u.vscale(self.max_value);
+        let v = v.vscale(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/rgb/write.rs b/src/formats/rgb/write.rs
index 7ee55fe..892822e 100644
--- a/src/formats/rgb/write.rs
+++ b/src/formats/rgb/write.rs
@@ -84,9 +84,9 @@ unsafe fn multiply_and_reverse<const REVERSE: bool, V: Vector>(
     px: RgbaPixel<V>,
     max_value: f32,
 ) -> [V; 3] {
-    let r = px.r.vmulf(max_value);
-    let g = px.g.vmulf(max_value);
-    let b = px.b.vmulf(max_value);
+    let r = px.r.vscale(max_value);
+    let g = px.g.vscale(max_value);
+    let b = px.b.vscale(max_value);
 
     if REVERSE {
         [b, g, r]
diff --git a/src/formats/rgba/write.rs b/src/formats/rgba/write.rs
index 3550615..f761033 100644
--- a/src/formats/rgba/write.rs
+++ b/src/formats/rgba/write.rs
@@ -85,10 +85,10 @@ unsafe fn multiply_and_reverse<const REVERSE: bool, V: Vector>(
     px: RgbaPixel<V>,
     max_value: f32,
 ) -> [V; 4] {
-    let r = px.r.vmulf(max_value);
-    let g = px.g.vmulf(max_value);
-    let b = px.b.vmulf(max_value);
-    let a = px.a.vmulf(max_value);
+    let r = px.r.vscale(max_value);
+    let g = px.g.vscale(max_value);
+    let b = px.b.vscale(max_value);
+    let a = px.a.vscale(max_value);
 
     if REVERSE {
         [b, g, r, a]
diff --git a/src/formats/yuyv/write.rs b/src/formats/yuyv/write.rs
index ad18abd..d6352fc 100644
--- a/src/formats/yuyv/write.rs
+++ b/src/formats/yuyv/write.rs
@@ -76,14 +76,14 @@ where
             v1,
         } = self.i422_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
-        let u0 = u0.vmulf(self.max_value);
-        let u1 = u1.vmulf(self.max_value);
-        let v0 = v0.vmulf(self.max_value);
-        let v1 = v1.vmulf(self.max_value);
+        let y00 = y00.vscale(self.max_value);
+        let y01 = y01.vscale(self.max_value);
+        let y10 = y10.vscale(self.max_value);
+        let y11 = y11.vscale(self.max_value);
+        let u0 = u0.vscale(self.max_value);
+        let u1 = u1.vscale(self.max_value);
+        let v0 = v0.vscale(self.max_value);
+        let v1 = v1.vscale(self.max_value);
 
         let offset0 = y * self.yuyv_stride + x * 2 * P::SIZE;
         let offset1 = (y + 1) * self.yuyv_stride + x * 2 * P::SIZE;
diff --git a/src/vector/avx2.rs b/src/vector/avx2.rs
index 4d9fcf4..8f604be 100644
--- a/src/vector/avx2.rs
+++ b/src/vector/avx2.rs
@@ -35,6 +35,10 @@ unsafe impl Vector for __m256 {
     unsafe fn vmax(self, other: Self) -> Self {
         _mm256_max_ps(self, other)
     }
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        _mm256_min_ps(other, self)
+    }
 
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
diff --git a/src/vector/avx512.rs b/src/vector/avx512.rs
index 24ee33b..5cfdb44 100644
--- a/src/vector/avx512.rs
+++ b/src/vector/avx512.rs
@@ -35,6 +35,10 @@ unsafe impl Vector for __m512 {
     unsafe fn vmax(self, other: Self) -> Self {
         _mm512_max_ps(self, other)
     }
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        _mm512_min_ps(other, self)
+    }
 
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 4e9d4a9..e6e9b89 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -52,6 +52,17 @@ pub(crate) unsafe trait Vector: Debug + Copy + 'static {
         self.vmax(Self::splat(other))
     }
 
+    /// Minimum of self and other, NaN in self is preserved
+    unsafe fn vmin(self, other: Self) -> Self;
+    unsafe fn vminf(self, other: f32) -> Self {
+        self.vmin(Self::splat(other))
+    }
+
+    /// Scale the analog value self to the range of an integer, without exceeding it
+    unsafe fn vscale(self, max_value: f32) -> Self {
+        self.vmulf(max_value).vminf(max_value)
+    }
+
     /// Compare all element in self to other and return a mask with the results a < b
     unsafe fn lt(self, other: Self) -> Self::Mask;
     unsafe fn ltf(self, other: f32) -> Self::Mask {
@@ -157,6 +168,14 @@ unsafe impl Vector for f32 {
     unsafe fn vmax(self, other: Self) -> Self {
         self.max(other)
     }
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        if other < self {
+            other
+        } else {
+            self
+        }
+    }
 
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
diff --git a/src/vector/neon.rs b/src/vector/neon.rs
index b1be751..b1f5e62 100644
--- a/src/vector/neon.rs
+++ b/src/vector/neon.rs
@@ -32,6 +32,10 @@ unsafe impl Vector for float32x4_t {
     unsafe fn vmax(self, other: Self) -> Self {
         vmaxq_f32(self, other)
     }
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        vminq_f32(self, other)
+    }
 
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
-- 
2.43.0


From a36555e0f06ac60f82b16f17679e595ba8d5287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 14/18] fix: clamp negative values in the AVX-512 integer
 conversion

They wrapped around to large values.
---
 src/vector/avx512.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/vector/avx512.rs b/src/vector/avx512.rs
index 5cfdb44..8721a80 100644
--- a/src/vector/avx512.rs
+++ b/src/vector/avx512.rs
@@ -300,34 +300,38 @@ unsafe fn deinterleave_4x(
 
 #[inline(always)]
 pub(crate) unsafe fn f32x16x2_to_u8x32(l: __m512, h: __m512) -> [u8; 32] {
-    let l = _mm512_cvtps_epi32(l);
-    let h = _mm512_cvtps_epi32(h);
+    let l = _mm512_max_epi32(_mm512_cvtps_epi32(l), _mm512_setzero_si512());
+    let h = _mm512_max_epi32(_mm512_cvtps_epi32(h), _mm512_setzero_si512());
 
-    let l = _mm512_cvtepi32_epi8(l);
-    let h = _mm512_cvtepi32_epi8(h);
+    let l = _mm512_cvtusepi32_epi8(l);
+    let h = _mm512_cvtusepi32_epi8(h);
 
     transmute([l, h])
 }
 
 #[inline(always)]
 pub(crate) unsafe fn f32x16x2_to_u16x32(l: __m512, h: __m512) -> [u16; 32] {
-    let l = _mm512_cvtps_epi32(l);
-    let h = _mm512_cvtps_epi32(h);
+    let l = _mm512_max_epi32(_mm512_cvtps_epi32(l), _mm512_setzero_si512());
+    let h = _mm512_max_epi32(_mm512_cvtps_epi32(h), _mm512_setzero_si512());
 
-    let l = _mm512_cvtepi32_epi16(l);
-    let h = _mm512_cvtepi32_epi16(h);
+    let l = _mm512_cvtusepi32_epi16(l);
+    let h = _mm512_cvtusepi32_epi16(h);
 
     transmute([l, h])
 }
 
 #[inline(always)]
 pub(crate) unsafe fn f32x16_to_u8x16(v: __m512) -> [u8; 16] {
-    transmute(_mm512_cvtepi32_epi8(_mm512_cvtps_epi32(v)))
+    let v = _mm512_max_epi32(_mm512_cvtps_epi32(v), _mm512_setzero_si512());
+
+    transmute(_mm512_cvtusepi32_epi8(v))
 }
 
 #[inline(always)]
 pub(crate) unsafe fn f32x16_to_u16x16(v: __m512) -> [u16; 16] {
-    transmute(_mm512_cvtepi32_epi16(_mm512_cvtps_epi32(v)))
+    let v = _mm512_max_epi32(_mm512_cvtps_epi32(v), _mm512_setzero_si512());
+
+    transmute(_mm512_cvtusepi32_epi16(v))
 }
 
 #[inline(always)]
-- 
2.43.0


From f42beb4b2ab40c90cc0e9df3ab6d2519d63beae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 15/18] fix: resize 16 bit planes which aren't aligned

---
 src/resize.rs | 77 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 14 deletions(-)

diff --git a/src/resize.rs b/src/resize.rs
index 5647ace..731581c 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -4,7 +4,7 @@ use fir::{pixels::InnerPixel, IntoImageView, IntoImageViewMut};
 use rayon::scope;
 #[cfg(not(feature = "multi-thread"))]
 use rayon_stub::scope;
-use std::{cmp, error::Error, fmt, marker::PhantomData};
+use std::{cmp, error::Error, fmt, marker::PhantomData, mem::align_of};
 
 pub use fir::{Filter, FilterType, ResizeAlg};
 
@@ -108,19 +108,35 @@ impl Resizer {
                         plane: dst_plane,
                     };
 
-                    fir_resizer
-                        .resize(
-                            &src,
-                            &mut dst,
-                            Some(&fir::ResizeOptions {
-                                algorithm: alg,
-                                cropping: fir::SrcCropping::None,
-                                mul_div_alpha: false,
-                            }),
-                        )
-                        .expect(
-                            "Pixel type must be assured to be the same before calling fir's resize",
-                        );
+                    let options = fir::ResizeOptions {
+                        algorithm: alg,
+                        cropping: fir::SrcCropping::None,
+                        mul_div_alpha: false,
+                    };
+
+                    let result = if src.is_aligned() && dst.is_aligned() {
+                        fir_resizer.resize(&src, &mut dst, Some(&options))
+                    } else {
+                        let src = src.to_aligned();
+                        let mut aligned_dst = dst.to_aligned();
+
+                        let result = fir_resizer.resize(&src, &mut aligned_dst, Some(&options));
+
+                        let row_len = dst.row_len();
+                        for (to, from) in dst
+                            .plane
+                            .chunks_mut(dst.stride)
+                            .zip(aligned_dst.buffer().chunks_exact(row_len))
+                        {
+                            to[..from.len()].copy_from_slice(from);
+                        }
+
+                        result
+                    };
+
+                    result.expect(
+                        "Pixel type must be assured to be the same before calling fir's resize",
+                    );
                 })
             }
         });
@@ -152,6 +168,39 @@ struct FirAdapterIntoImageView<T> {
     plane: T,
 }
 
+impl<T: AsRef<[u8]>> FirAdapterIntoImageView<T> {
+    /// Number of visible bytes per row
+    fn row_len(&self) -> usize {
+        self.width * self.pixel_type.size()
+    }
+
+    /// Are all rows aligned to the pixel type, so that they can be viewed as slice of pixels?
+    fn is_aligned(&self) -> bool {
+        let align = match self.pixel_type {
+            fir::PixelType::U16 => align_of::<u16>(),
+            _ => 1,
+        };
+
+        self.plane.as_ref().as_ptr() as usize % align == 0 && self.stride % align == 0
+    }
+
+    /// Copy the visible part of the plane into an aligned buffer
+    fn to_aligned(&self) -> fir::images::Image<'static> {
+        let mut image =
+            fir::images::Image::new(self.width as u32, self.height as u32, self.pixel_type);
+
+        for (to, from) in image
+            .buffer_mut()
+            .chunks_exact_mut(self.row_len())
+            .zip(self.plane.as_ref().chunks(self.stride))
+        {
+            to.copy_from_slice(&from[..to.len()]);
+        }
+
+        image
+    }
+}
+
 impl<T: AsRef<[u8]>> IntoImageView for FirAdapterIntoImageView<T> {
     fn pixel_type(&self) -> Option<fir::PixelType> {
         Some(self.pixel_type)
-- 
2.43.0


From d5bc39d3c263d70fee526b1014ca567b2f52e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 16/18] fix: use the chromaticities of SMPTE ST 240 for
 ColorPrimaries::ST240

The y coordinate of the red primary is 0.340, the matrices were made using 0.329.
---
 src/color/primaries.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/color/primaries.rs b/src/color/primaries.rs
index 3c12bfa..26ff851 100644
--- a/src/color/primaries.rs
+++ b/src/color/primaries.rs
@@ -73,14 +73,14 @@ pub(crate) unsafe fn xyz_to_rgb<V: Vector>(bw: &[[f32; 3]; 3], x: V, y: V, z: V)
 
 mod generated_consts {
     pub(super) const ST240_RGB_TO_XYZ: [[f32; 3]; 3] = [
-        [0.39031416, 0.20383073, 0.025401404],
-        [0.3700937, 0.71034116, 0.11341577],
-        [0.19004808, 0.08582816, 0.95024043],
+        [0.3935209, 0.21237636, 0.018739091],
+        [0.36525807, 0.7010599, 0.111933924],
+        [0.19167694, 0.08656378, 0.95838475],
     ];
     pub(super) const ST240_XYZ_TO_RGB: [[f32; 3]; 3] = [
-        [3.506003, -1.0092703, 0.026740361],
-        [-1.7397907, 1.9292052, -0.18375263],
-        [-0.5440582, 0.027603257, 1.0636142],
+        [3.5060034, -1.0690476, 0.056306593],
+        [-1.7397907, 1.9777789, -0.19697565],
+        [-0.54405826, 0.03517142, 1.0499524],
     ];
 
     pub(super) const BT709_RGB_TO_XYZ: [[f32; 3]; 3] = [
-- 
2.43.0


From 1ad28e93bf613f8798c65bec741d2d1cc77a276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 17/18] fix: clamp PQ values above the maximum luminance

The denominator of the PQ EOTF gets zero or negative for values above 1.99,
which limited range YUV images can contain. The result was NaN or infinite.
---
 src/color/transfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index 4f03cf4..aade1ea 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -219,8 +219,8 @@ pub(crate) mod bt2100_pq {
     /// PQ EOTF
     #[inline(always)]
     pub(crate) unsafe fn scaled_to_linear<V: Vector>(i: V) -> V {
-        // Avoid producing NaN for negative numbers
-        let i = i.vmaxf(0.0);
+        // Avoid producing NaN for negative numbers, and values (far) above the maximum luminance
+        let i = i.vmaxf(0.0).vminf(1.0);
 
         let epow1dm2 = i.vpowf(1.0 / M2);
 
-- 
2.43.0


From 3ade105c10275c1724fa726b85c35a7de0f8af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:23 +0000
Subject: [PATCH 18/18] fix: limit resized samples to their bit depth

Filters with negative weights (CatmullRom, Mitchell, Lanczos3) produced samples
above 1023 in 10 bit images and above 4095 in 12 bit images.
---
 src/resize.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/resize.rs b/src/resize.rs
index 731581c..4c38def 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -54,6 +54,7 @@ impl Resizer {
         let alg = self.alg;
 
         let desc = src.format().plane_desc();
+        let max_value = ((1u32 << src.format().bits_per_component()) - 1) as u16;
 
         let src_width = src.width();
         let dst_width = dst.width();
@@ -137,6 +138,10 @@ impl Resizer {
                     result.expect(
                         "Pixel type must be assured to be the same before calling fir's resize",
                     );
+
+                    if plane_desc.pixel_type == fir::PixelType::U16 {
+                        dst.clamp_u16(max_value);
+                    }
                 })
             }
         });
@@ -201,6 +206,25 @@ impl<T: AsRef<[u8]>> FirAdapterIntoImageView<T> {
     }
 }
 
+impl<T: AsMut<[u8]>> FirAdapterIntoImageView<T> {
+    /// Limit all samples, filters may exceed the bit depth of the samples as it is lower than 16
+    fn clamp_u16(&mut self, max_value: u16) {
+        let row_len = self.width * self.pixel_type.size();
+
+        for row in self
+            .plane
+            .as_mut()
+            .chunks_mut(self.stride)
+            .take(self.height)
+        {
+            for sample in row[..row_len].chunks_exact_mut(2) {
+                let value = u16::from_ne_bytes([sample[0], sample[1]]);
+                sample.copy_from_slice(&value.min(max_value).to_ne_bytes());
+            }
+        }
+    }
+}
+
 impl<T: AsRef<[u8]>> IntoImageView for FirAdapterIntoImageView<T> {
     fn pixel_type(&self) -> Option<fir::PixelType> {
         Some(self.pixel_type)
-- 
2.43.0

