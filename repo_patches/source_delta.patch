From a86c6ad61ae37696e458bca2c7b36de56b3e50c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 01/21] fix: count only visible samples in the PSNR squared
 error

The sum ran over the whole plane buffer, so stride alignment and frame
padding changed the score.
---
 av_metrics/src/video/psnr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index 9c1b19d..7dac9f7 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -187,9 +187,9 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
 /// to the compressed version.
 fn calculate_plane_total_squared_error<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>) -> f64 {
     plane1
-        .data
-        .iter()
-        .zip(plane2.data.iter())
+        .rows_iter()
+        .flatten()
+        .zip(plane2.rows_iter().flatten())
         .map(|(a, b)| (i32::cast_from(*a) - i32::cast_from(*b)).unsigned_abs() as u64)
         .map(|err| err * err)
         .sum::<u64>() as f64
-- 
2.43.0


From 77cf3a4c015e0823a9c5bbc483d52311005be953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 02/21] fix: cap PSNR at 100 as documented

Only a squared error of zero was capped; a tiny error in a large or high
bit depth frame scored above 100, i.e. better than identical frames.
---
 av_metrics/src/video/psnr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/psnr.rs b/av_metrics/src/video/psnr.rs
index 7dac9f7..4b55b0a 100644
--- a/av_metrics/src/video/psnr.rs
+++ b/av_metrics/src/video/psnr.rs
@@ -179,8 +179,10 @@ fn calculate_psnr(metrics: PsnrMetrics) -> f64 {
     if metrics.sq_err <= f64::EPSILON {
         return 100.0;
     }
-    10.0 * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
-        - metrics.sq_err.log10())
+    let psnr = 10.0
+        * ((metrics.sample_max.pow(2) as f64).log10() + (metrics.n_pixels as f64).log10()
+            - metrics.sq_err.log10());
+    psnr.min(100.0)
 }
 
 /// Calculate the squared error for a `Plane` by comparing the original (uncompressed)
-- 
2.43.0


From 0c174312af093332b903540aad92d1a7f5ea38e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 03/21] fix: read only visible samples in SSIM and MS-SSIM

The plane buffer was read as if its stride were its width and its origin
(0, 0), so aligned or padded planes were scored on the wrong samples.
---
 av_metrics/src/video/ssim.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 5339631..310675c 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -472,7 +472,11 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
 }
 
 fn plane_to_vec<T: Pixel>(input: &Plane<T>) -> Vec<u32> {
-    input.data.iter().map(|pix| u32::cast_from(*pix)).collect()
+    input
+        .rows_iter()
+        .flatten()
+        .map(|pix| u32::cast_from(*pix))
+        .collect()
 }
 
 // This acts differently from downscaling a plane, and is what
-- 
2.43.0


From f63a0b83ba81c349496ca7aba4a1561fe181d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 04/21] fix: honour stride and origin of the planes in CIEDE

Rows were located at multiples of the plane width, so aligned or padded
planes were scored on the wrong samples.
---
 av_metrics/src/video/ciede/mod.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index f021df6..bddc311 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -117,32 +117,28 @@ impl VideoMetric for Ciede2000 {
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-        let c_width = frame1.planes[1].cfg.width;
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
-            let y_start = i * y_width;
-            let y_end = y_start + y_width;
-            let c_start = (i >> dec.1) * c_width;
-            let c_end = c_start + c_width;
+            let y_range = frame1.planes[0].row_range_cropped(0, i as isize);
+            let c_row = (i >> dec.1) as isize;
+            let u_range = frame1.planes[1].row_range_cropped(0, c_row);
+            let v_range = frame1.planes[2].row_range_cropped(0, c_row);
 
-            let y_range = y_start..y_end;
-            let c_range = c_start..c_end;
-
-            let mut delta_e_vec = vec![0.0; y_end - y_start];
+            let mut delta_e_vec = vec![0.0; y_width];
 
             unsafe {
                 delta_e_row_fn(
                     FrameRow {
                         y: &frame1.planes[0].data[y_range.clone()],
-                        u: &frame1.planes[1].data[c_range.clone()],
-                        v: &frame1.planes[2].data[c_range.clone()],
+                        u: &frame1.planes[1].data[u_range.clone()],
+                        v: &frame1.planes[2].data[v_range.clone()],
                     },
                     FrameRow {
                         y: &frame2.planes[0].data[y_range],
-                        u: &frame2.planes[1].data[c_range.clone()],
-                        v: &frame2.planes[2].data[c_range],
+                        u: &frame2.planes[1].data[u_range],
+                        v: &frame2.planes[2].data[v_range],
                     },
                     &mut delta_e_vec[..],
                 );
-- 
2.43.0


From 393b1ac78c656abb968375ca7c162fde714adcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 05/21] fix: honour the plane origin in PSNR-HVS

Blocks were read from the start of the buffer, i.e. from the padding of
frames that have any.
---
 av_metrics/src/video/psnr_hvs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index ee12d06..de9c6ca 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -212,6 +212,7 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     let height = plane1.cfg.height;
     let width = plane1.cfg.width;
     let stride = plane1.cfg.stride;
+    let origin = plane1.cfg.yorigin * stride + plane1.cfg.xorigin;
     let mut p1 = [0i16; 8 * 8];
     let mut p2 = [0i16; 8 * 8];
     let mut dct_p1 = [0i32; 8 * 8];
@@ -233,8 +234,8 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
 
             for i in 0..8 {
                 for j in 0..8 {
-                    p1[i * 8 + j] = i16::cast_from(plane1.data[(y + i) * stride + x + j]);
-                    p2[i * 8 + j] = i16::cast_from(plane2.data[(y + i) * stride + x + j]);
+                    p1[i * 8 + j] = i16::cast_from(plane1.data[origin + (y + i) * stride + x + j]);
+                    p2[i * 8 + j] = i16::cast_from(plane2.data[origin + (y + i) * stride + x + j]);
 
                     let sub = ((i & 12) >> 2) + ((j & 12) >> 1);
                     p1_gmean += p1[i * 8 + j] as f64;
-- 
2.43.0


From 4fb73ac1eb866acd5a8100d3fbe8447eb0d60a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:40 +0000
Subject: [PATCH 06/21] fix: write vertically sited chroma to the right samples

Output rows were located at multiples of the width instead of the stride,
and planes narrower than 5 samples underflowed an index.
---
 av_metrics/src/video/decode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index c51455b..6546fa3 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -132,10 +132,12 @@ pub fn convert_chroma_data<T: Pixel>(
     let output_data = &mut plane_data.data;
     let width = plane_data.cfg.width;
     let height = plane_data.cfg.height;
+    let stride = plane_data.cfg.stride;
+    let origin = plane_data.cfg.yorigin * stride + plane_data.cfg.xorigin;
     for y in 0..height {
         // Filter: [4 -17 114 35 -9 1]/128, derived from a 6-tap Lanczos window.
         let in_row = &source[(y * source_stride)..];
-        let out_row = &mut output_data[(y * width)..];
+        let out_row = &mut output_data[(origin + y * stride)..];
         let breakpoint = cmp::min(width, 2);
         for x in 0..breakpoint {
             out_row[x] = T::cast_from(clamp(
@@ -150,7 +152,7 @@ pub fn convert_chroma_data<T: Pixel>(
                 (1 << bit_depth) - 1,
             ));
         }
-        let breakpoint2 = width - 3;
+        let breakpoint2 = cmp::max(breakpoint, width.saturating_sub(3));
         for x in breakpoint..breakpoint2 {
             out_row[x] = T::cast_from(clamp(
                 (4 * get_pixel(in_row, x - 2) - 17 * get_pixel(in_row, x - 1)
-- 
2.43.0


From a23d6277c8f075d16752e20f944300ce7628b034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 07/21] fix: return the error of a failing frame pair instead
 of hanging

When processing a pair failed, the loop stopped receiving but the channel
stayed open, so the sender thread blocked for ever on a full channel and
joining it never returned.
---
 av_metrics/src/video/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 24300a2..e105e90 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -217,6 +217,8 @@ trait VideoMetric: Send + Sync {
             }
 
             out = metrics;
+            // Unblock the sender thread if it still has frames to deliver
+            drop(recv);
 
             (
                 send_result
@@ -228,14 +230,14 @@ trait VideoMetric: Send + Sync {
 
         match scope_result {
             Ok((send_error, process_error)) => {
-                if let Err(error) = send_error {
-                    return Err(MetricsError::SendError { reason: error }.into());
-                }
-
                 if let Err(error) = process_error {
                     return Err(MetricsError::ProcessError { reason: error }.into());
                 }
 
+                if let Err(error) = send_error {
+                    return Err(MetricsError::SendError { reason: error }.into());
+                }
+
                 if out.is_empty() {
                     return Err(MetricsError::UnsupportedInput {
                         reason: "No readable frames found in one or more input files",
-- 
2.43.0


From e89fb169a31a8bfb625b508762aa6e85bc96a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 08/21] fix: do not reserve memory for the whole frame limit

A limit larger than the video (usize::MAX, say) panicked or aborted.
---
 av_metrics/src/video/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index e105e90..5329f93 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -184,7 +184,7 @@ trait VideoMetric: Send + Sync {
             });
 
             use rayon::prelude::*;
-            let mut metrics = Vec::with_capacity(frame_limit.unwrap_or(0));
+            let mut metrics = Vec::new();
             let mut process_error = Ok(());
             loop {
                 let working_set: Vec<_> = (0..num_threads)
-- 
2.43.0


From 302ad302a064e7aa378294ca121539bb9e645d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 09/21] fix: stop looking for a specific frame at the end of
 the video

Asking for a frame far behind the end kept polling the decoder.
---
 av_metrics/src/video/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index 6546fa3..cb4e3c6 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -24,9 +24,9 @@ pub trait Decoder: Send {
     fn read_specific_frame<T: Pixel>(&mut self, frame_number: usize) -> Option<Frame<T>> {
         let mut frame_no = 0;
         while frame_no <= frame_number {
-            let frame = self.read_video_frame();
-            if frame_no == frame_number && frame.is_some() {
-                return frame;
+            let frame = self.read_video_frame()?;
+            if frame_no == frame_number {
+                return Some(frame);
             }
             frame_no += 1;
         }
-- 
2.43.0


From 20b959e6a0b2baff04ec863e96305b0b62fdfe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 10/21] fix: report unsupported bit depths in CIEDE as an error

They ran into unreachable!().
---
 av_metrics/src/video/ciede/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index bddc311..3136550 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -114,6 +114,12 @@ impl VideoMetric for Ciede2000 {
 
         frame1.can_compare(frame2)?;
 
+        if !matches!(bit_depth, 8 | 10 | 12) {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "CIEDE supports bit depths 8, 10 and 12",
+            }));
+        }
+
         let dec = chroma_sampling.get_decimation().unwrap_or((1, 1));
         let y_width = frame1.planes[0].cfg.width;
         let y_height = frame1.planes[0].cfg.height;
-- 
2.43.0


From 4385027b30414f9c04bd8a71546e3982a8020730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 11/21] fix: handle small and absent planes in PSNR-HVS

Planes without a single 8x8 block scored NaN or underflowed an index. The
absent chroma planes of monochrome content count as equal, planes that are
too small are an error.
---
 av_metrics/src/video/psnr_hvs.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index de9c6ca..c85b5f6 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -85,6 +85,16 @@ impl VideoMetric for PsnrHvs {
 
         frame1.can_compare(frame2)?;
 
+        if frame1
+            .planes
+            .iter()
+            .any(|p| !is_absent(p) && (p.cfg.width < 8 || p.cfg.height < 8))
+        {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "PSNR-HVS requires planes of at least 8x8 samples",
+            }));
+        }
+
         let mut y = 0.0;
         let mut u = 0.0;
         let mut v = 0.0;
@@ -169,6 +179,11 @@ const CSF_CR420: [[f64; 8]; 8] = [
     [0.593906509971, 0.802254508198, 0.706020324706, 0.587716619023, 0.478717061273, 0.393021669543, 0.330555063063, 0.285345396658]
 ];
 
+/// Monochrome content has no chroma planes.
+fn is_absent<T: Pixel>(plane: &Plane<T>) -> bool {
+    plane.cfg.width == 0 || plane.cfg.height == 0
+}
+
 fn calculate_plane_psnr_hvs<T: Pixel>(
     plane1: &Plane<T>,
     plane2: &Plane<T>,
@@ -176,6 +191,9 @@ fn calculate_plane_psnr_hvs<T: Pixel>(
     bit_depth: usize,
 ) -> f64 {
     const STEP: usize = 7;
+    if is_absent(plane1) {
+        return 0.0;
+    }
     let mut result = 0.0;
     let mut pixels = 0usize;
     let csf = match plane_idx {
-- 
2.43.0


From cec446cdf1a2bb9c2cf79dc94f8898a765359571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 12/21] fix: score monochrome content with SSIM

Building the kernel for an absent chroma plane underflowed; absent planes
now count as equal.
---
 av_metrics/src/video/ssim.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 310675c..7c5c9b5 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -304,6 +304,11 @@ struct SsimMoments {
 const SSIM_K1: f64 = 0.01 * 0.01;
 const SSIM_K2: f64 = 0.03 * 0.03;
 
+/// Monochrome content has no chroma planes.
+fn is_absent<T: Pixel>(plane: &Plane<T>) -> bool {
+    plane.cfg.width == 0 || plane.cfg.height == 0
+}
+
 fn calculate_plane_ssim<T: Pixel>(
     plane1: &Plane<T>,
     plane2: &Plane<T>,
@@ -311,6 +316,9 @@ fn calculate_plane_ssim<T: Pixel>(
     vert_kernel: &[i64],
     horiz_kernel: &[i64],
 ) -> f64 {
+    if is_absent(plane1) {
+        return 1.0;
+    }
     let vec1 = plane_to_vec(plane1);
     let vec2 = plane_to_vec(plane2);
     calculate_plane_ssim_internal(
@@ -456,7 +464,11 @@ fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Ve
     } else {
         (sigma * (-2.0 * s.log(E)).sqrt()).floor() as usize
     };
-    let kernel_len = if len >= max_len { max_len - 1 } else { len };
+    let kernel_len = if len >= max_len {
+        max_len.saturating_sub(1)
+    } else {
+        len
+    };
     let kernel_size = (kernel_len << 1) | 1;
     let mut kernel = vec![0; kernel_size];
     let mut sum = 0;
-- 
2.43.0


From db58c8ea6dc351263bf43c9905a38866cf92cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 13/21] fix: handle small and absent planes in MS-SSIM

Planes that vanish before the fifth scale scored NaN or panicked. The
absent chroma planes of monochrome content count as equal, planes that are
too small are an error.
---
 av_metrics/src/video/ssim.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 7c5c9b5..b5d2e40 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -246,6 +246,16 @@ impl VideoMetric for MsSsim {
 
         frame1.can_compare(frame2)?;
 
+        if frame1
+            .planes
+            .iter()
+            .any(|p| !is_absent(p) && (p.cfg.width < 16 || p.cfg.height < 16))
+        {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "MS-SSIM requires planes of at least 16x16 samples",
+            }));
+        }
+
         let mut y = 0.0;
         let mut u = 0.0;
         let mut v = 0.0;
@@ -417,6 +427,10 @@ fn calculate_plane_msssim<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>, bit_de
     // They don't add up to 1 due to rounding done in the paper.
     const MS_WEIGHT: [f64; 5] = [0.0448, 0.2856, 0.3001, 0.2363, 0.1333];
 
+    if is_absent(plane1) {
+        return 1.0;
+    }
+
     let mut sample_max = (1 << bit_depth) - 1;
     let mut ssim = [0.0; 5];
     let mut cs = [0.0; 5];
-- 
2.43.0


From 389749f117e918992d61521f2c9cba3c7a6636fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 14/21] fix: do not take fractional powers of negative MS-SSIM
 terms

The mean of a scale is negative for anticorrelated planes, for which the
score was NaN.
---
 av_metrics/src/video/ssim.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index b5d2e40..2830633 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -461,9 +461,9 @@ fn calculate_plane_msssim<T: Pixel>(plane1: &Plane<T>, plane2: &Plane<T>, bit_de
     cs.iter()
         .zip(MS_WEIGHT.iter())
         .take(4)
-        .map(|(cs, weight)| cs.powf(*weight))
+        .map(|(cs, weight): (&f64, _)| cs.max(0.0).powf(*weight))
         .fold(1.0, |acc, val| acc * val)
-        * ssim[4].powf(MS_WEIGHT[4])
+        * ssim[4].max(0.0).powf(MS_WEIGHT[4])
 }
 
 fn build_gaussian_kernel(sigma: f64, max_len: usize, kernel_weight: usize) -> Vec<i64> {
-- 
2.43.0


From 1f351e00c1ff976e7063df7787be4b0ba913e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 15/21] fix: score monochrome content with CIEDE

Without chroma rows no pixel was compared at all and every pair of frames
scored 100. Monochrome colours are neutral.
---
 av_metrics/src/video/ciede/mod.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 3136550..0b6206d 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -126,11 +126,13 @@ impl VideoMetric for Ciede2000 {
         let delta_e_row_fn = get_delta_e_row_fn(bit_depth, dec.0, self.use_simd);
         // let mut delta_e_vec: Vec<f32> = vec![0.0; y_width * y_height];
 
+        // Monochrome content has no chroma planes: its colour is neutral everywhere
+        let neutral = (chroma_sampling == ChromaSampling::Cs400)
+            .then(|| vec![T::cast_from(1i32 << (bit_depth - 1)); (y_width + 1) / 2]);
+
         let delta_e_per_line = (0..y_height).into_par_iter().map(|i| {
             let y_range = frame1.planes[0].row_range_cropped(0, i as isize);
-            let c_row = (i >> dec.1) as isize;
-            let u_range = frame1.planes[1].row_range_cropped(0, c_row);
-            let v_range = frame1.planes[2].row_range_cropped(0, c_row);
+            let c_row = i >> dec.1;
 
             let mut delta_e_vec = vec![0.0; y_width];
 
@@ -138,13 +140,13 @@ impl VideoMetric for Ciede2000 {
                 delta_e_row_fn(
                     FrameRow {
                         y: &frame1.planes[0].data[y_range.clone()],
-                        u: &frame1.planes[1].data[u_range.clone()],
-                        v: &frame1.planes[2].data[v_range.clone()],
+                        u: chroma_row(&frame1.planes[1], c_row, &neutral),
+                        v: chroma_row(&frame1.planes[2], c_row, &neutral),
                     },
                     FrameRow {
                         y: &frame2.planes[0].data[y_range],
-                        u: &frame2.planes[1].data[u_range],
-                        v: &frame2.planes[2].data[v_range],
+                        u: chroma_row(&frame2.planes[1], c_row, &neutral),
+                        v: chroma_row(&frame2.planes[2], c_row, &neutral),
                     },
                     &mut delta_e_vec[..],
                 );
@@ -166,6 +168,18 @@ impl VideoMetric for Ciede2000 {
     }
 }
 
+/// The samples of one row of a chroma plane, or the neutral row that stands for it.
+fn chroma_row<'a, T: Pixel>(
+    plane: &'a v_frame::plane::Plane<T>,
+    row: usize,
+    neutral: &'a Option<Vec<T>>,
+) -> &'a [T] {
+    match neutral {
+        Some(neutral) => neutral,
+        None => &plane.data[plane.row_range_cropped(0, row as isize)],
+    }
+}
+
 // Arguments for delta e
 // "Color Image Quality Assessment Based on CIEDE2000"
 // Yang Yang, Jun Ming and Nenghai Yu, 2012
-- 
2.43.0


From 7f84fbde102793fe974a17945352020b2193244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 16/21] fix: decode Y4M frames into planes of their exact size

The planes were rounded up to a multiple of 8, so the metrics scored made-up
samples at the right and bottom.
---
 av_metrics_decoders/src/y4m.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/av_metrics_decoders/src/y4m.rs b/av_metrics_decoders/src/y4m.rs
index 81cbb83..51737b2 100644
--- a/av_metrics_decoders/src/y4m.rs
+++ b/av_metrics_decoders/src/y4m.rs
@@ -75,9 +75,18 @@ where
         let height = self.inner.get_height();
         let bytes = self.inner.get_bytes_per_sample();
         self.inner.read_frame().ok().map(|frame| {
-            let mut f: Frame<T> = Frame::new_with_padding(width, height, chroma_sampling, 0);
+            // Not `Frame::new_with_padding`, which rounds the dimensions up
+            let (xdec, ydec) = chroma_sampling.get_decimation().unwrap_or((0, 0));
+            let (chroma_width, chroma_height) =
+                chroma_sampling.get_chroma_dimensions(width, height);
+            let mut f: Frame<T> = Frame {
+                planes: [
+                    Plane::new(width, height, 0, 0, 0, 0),
+                    Plane::new(chroma_width, chroma_height, xdec, ydec, 0, 0),
+                    Plane::new(chroma_width, chroma_height, xdec, ydec, 0, 0),
+                ],
+            };
 
-            let (chroma_width, _) = chroma_sampling.get_chroma_dimensions(width, height);
             f.planes[0].copy_from_raw_u8(frame.get_y_plane(), width * bytes, bytes);
             convert_chroma_data(
                 &mut f.planes[1],
-- 
2.43.0


From 99ed607572b7451d80c707a4f282105efff9520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 17/21] fix: decode monochrome Y4M

Copying the absent chroma planes panicked.
---
 av_metrics_decoders/src/y4m.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/av_metrics_decoders/src/y4m.rs b/av_metrics_decoders/src/y4m.rs
index 51737b2..f34cc3d 100644
--- a/av_metrics_decoders/src/y4m.rs
+++ b/av_metrics_decoders/src/y4m.rs
@@ -88,6 +88,9 @@ where
             };
 
             f.planes[0].copy_from_raw_u8(frame.get_y_plane(), width * bytes, bytes);
+            if chroma_sampling == ChromaSampling::Cs400 {
+                return f;
+            }
             convert_chroma_data(
                 &mut f.planes[1],
                 chroma_sample_pos,
-- 
2.43.0


From b1587554700f0859566810674b3eadff4f720c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:32 +0000
Subject: [PATCH 18/21] fix: do not score equal frames NaN with SSIM and
 MS-SSIM

Rounding can lift the score of equal frames just above the perfect one,
whose distance to it then is negative.
---
 av_metrics/src/video/ssim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/ssim.rs b/av_metrics/src/video/ssim.rs
index 2830633..83f9d4b 100644
--- a/av_metrics/src/video/ssim.rs
+++ b/av_metrics/src/video/ssim.rs
@@ -529,5 +529,5 @@ fn msssim_downscale(input: &[u32], input_width: usize, input_height: usize) -> V
 }
 
 fn log10_convert(score: f64, weight: f64) -> f64 {
-    10.0 * (weight.log10() - (weight - score).log10())
+    10.0 * (weight.log10() - (weight - score).max(0.0).log10())
 }
-- 
2.43.0


From e8eb78ab58da14481d3f7738d4ace507e636fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 19/21] fix: error messages about monochrome frames no longer
 panic

---
 av_metrics/src/video/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 5329f93..c45fe7e 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -96,6 +96,12 @@ pub struct PlanarMetrics {
     pub avg: f64,
 }
 
+/// Describes a frame in an error message. `Debug` of a plane reads its first sample, which the
+/// chroma planes of monochrome content do not have.
+fn describe<T: Pixel>(frame: &Frame<T>) -> String {
+    format!("{:?}", frame.planes.iter().map(|p| &p.cfg).collect::<Vec<_>>())
+}
+
 trait VideoMetric: Send + Sync {
     type FrameResult: Send + Sync;
     type VideoResult: Send + Sync;
@@ -170,8 +176,9 @@ trait VideoMetric: Send + Sync {
                         progress_callback(decoded);
                         if let Err(e) = send.send((frame1, frame2)) {
                             let (frame1, frame2) = e.into_inner();
+                            let (frame1, frame2) = (describe(&frame1), describe(&frame2));
                             return Err(format!(
-                                "Error sending\n\nframe1: {frame1:?}\n\nframe2: {frame2:?}"
+                                "Error sending\n\nframe1: {frame1}\n\nframe2: {frame2}"
                             ));
                         }
                     } else {
@@ -199,7 +206,8 @@ trait VideoMetric: Send + Sync {
                                     vid_info.chroma_sampling,
                                 )
                                 .map_err(|e| {
-                                    format!("\n\n{e} on\n\nframe1: {f1:?}\n\nand\n\nframe2: {f2:?}")
+                                    let (f1, f2) = (describe(&f1), describe(&f2));
+                                    format!("\n\n{e} on\n\nframe1: {f1}\n\nand\n\nframe2: {f2}")
                                 })
                             })
                             .ok()
-- 
2.43.0


From fdff172e09209d07f52bbb964ae132d785ba421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 20/21] fix: honour the row stride and exact plane sizes of
 frames decoded by FFmpeg

---
 av_metrics_decoders/src/ffmpeg.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 3843143..1553e5f 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -105,27 +105,35 @@ impl FfmpegDecoder {
     }
 
     fn decode_frame<T: Pixel>(&self, decoded: &frame::Video) -> Frame<T> {
-        let mut f: Frame<T> = Frame::new_with_padding(
-            self.video_details.width,
-            self.video_details.height,
-            self.video_details.chroma_sampling,
-            0,
-        );
         let width = self.video_details.width;
         let height = self.video_details.height;
         let bit_depth = self.video_details.bit_depth;
         let bytes = if bit_depth > 8 { 2 } else { 1 };
-        let (chroma_width, _) = self
+        // Not `Frame::new_with_padding`, which rounds the dimensions up
+        let (xdec, ydec) = self
+            .video_details
+            .chroma_sampling
+            .get_decimation()
+            .unwrap_or((0, 0));
+        let (chroma_width, chroma_height) = self
             .video_details
             .chroma_sampling
             .get_chroma_dimensions(width, height);
-        f.planes[0].copy_from_raw_u8(decoded.data(0), width * bytes, bytes);
+        let mut f: Frame<T> = Frame {
+            planes: [
+                Plane::new(width, height, 0, 0, 0, 0),
+                Plane::new(chroma_width, chroma_height, xdec, ydec, 0, 0),
+                Plane::new(chroma_width, chroma_height, xdec, ydec, 0, 0),
+            ],
+        };
+        // The rows of the decoder's buffers may be padded
+        f.planes[0].copy_from_raw_u8(decoded.data(0), decoded.stride(0), bytes);
         convert_chroma_data(
             &mut f.planes[1],
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(1),
-            chroma_width * bytes,
+            decoded.stride(1),
             bytes,
         );
         convert_chroma_data(
@@ -133,7 +141,7 @@ impl FfmpegDecoder {
             self.video_details.chroma_sample_position,
             bit_depth,
             decoded.data(2),
-            chroma_width * bytes,
+            decoded.stride(2),
             bytes,
         );
         f
-- 
2.43.0


From 4bdbfd29f3fabb2cd6e030ded6979ac056ed1934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 21/21] hook: expose the DCT and the colour approximations
 under cfg av_metrics_verif

---
 av_metrics/src/lib.rs                      |  2 ++
 av_metrics/src/video/ciede/mod.rs          |  3 +++
 av_metrics/src/video/ciede/rgbtolab/mod.rs | 28 ++++++++++++++++++++++
 av_metrics/src/video/psnr_hvs.rs           |  7 ++++++
 4 files changed, 40 insertions(+)

diff --git a/av_metrics/src/lib.rs b/av_metrics/src/lib.rs
index 0e24e9a..8c82ed7 100644
--- a/av_metrics/src/lib.rs
+++ b/av_metrics/src/lib.rs
@@ -7,6 +7,8 @@
 #![allow(clippy::unreadable_literal)]
 #![allow(clippy::wrong_self_convention)]
 #![deny(missing_docs)]
+// `av_metrics_verif` is set by hand to expose internals to external verification
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 extern crate itertools;
diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index 0b6206d..5400576 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -14,6 +14,9 @@ use std::mem::size_of;
 
 mod rgbtolab;
 use rgbtolab::*;
+#[cfg(av_metrics_verif)]
+#[doc(hidden)]
+pub use rgbtolab::{verif, verif_avx2};
 
 mod delta_e;
 use delta_e::*;
diff --git a/av_metrics/src/video/ciede/rgbtolab/mod.rs b/av_metrics/src/video/ciede/rgbtolab/mod.rs
index 355d791..ef46e08 100644
--- a/av_metrics/src/video/ciede/rgbtolab/mod.rs
+++ b/av_metrics/src/video/ciede/rgbtolab/mod.rs
@@ -201,6 +201,18 @@ fn cbrt_approx(x: f32) -> f32 {
     est * (truncated_pow_cbrt * exp_pow_cbrt)
 }
 
+/// Access for external verification, off unless built with `--cfg av_metrics_verif`.
+#[cfg(av_metrics_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub fn pow_2_4(c: f32) -> f32 {
+        super::pow_2_4(c)
+    }
+    pub fn cbrt(c: f32) -> f32 {
+        super::cbrt_approx(c)
+    }
+}
+
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 pub use self::avx2::*;
 
@@ -466,4 +478,20 @@ mod avx2 {
 
         _mm256_mul_ps(est, _mm256_mul_ps(truncated_cbrt, exp_cbrt))
     }
+
+    /// Access for external verification, off unless built with `--cfg av_metrics_verif`.
+    #[cfg(av_metrics_verif)]
+    #[doc(hidden)]
+    pub mod verif_avx2 {
+        use super::*;
+
+        #[target_feature(enable = "avx2")]
+        pub unsafe fn pow_2_4(x: __m256) -> __m256 {
+            super::pow_2_4_avx2(x)
+        }
+        #[target_feature(enable = "avx2")]
+        pub unsafe fn cbrt(x: __m256) -> __m256 {
+            super::cbrt_approx_avx2(x)
+        }
+    }
 }
diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index c85b5f6..7663958 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -352,6 +352,13 @@ fn od_bin_fdct8x8(data: &mut [i32]) {
     }
 }
 
+/// Access for external verification, off unless built with `--cfg av_metrics_verif`.
+#[cfg(av_metrics_verif)]
+#[doc(hidden)]
+pub fn verif_fdct8x8(data: &mut [i32]) {
+    od_bin_fdct8x8(data)
+}
+
 #[allow(clippy::identity_op)]
 fn od_bin_fdct8(y: &mut [i32], x: &[i32]) {
     assert!(y.len() >= 8);
-- 
2.43.0

