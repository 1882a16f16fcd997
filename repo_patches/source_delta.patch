From 085a39563f813ce48002af6bb135e4740963ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 01/18] fix: oriented_fast on images no larger than the edge
 margin

---
 src/corners.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 51f17be..dbd783f 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -178,8 +178,12 @@ pub fn oriented_fast(
     seed: Option<u64>,
 ) -> Vec<OrientedFastCorner> {
     let (width, height) = image.dimensions();
-    let (min_x, max_x) = (edge_radius, width - edge_radius);
-    let (min_y, max_y) = (edge_radius, height - edge_radius);
+    let (min_x, max_x) = (edge_radius, width.saturating_sub(edge_radius));
+    let (min_y, max_y) = (edge_radius, height.saturating_sub(edge_radius));
+    if min_x >= max_x || min_y >= max_y {
+        // Every pixel lies within the edge margin.
+        return vec![];
+    }
     let mut corners = vec![];
 
     let local_threshold = if let Some(t) = threshold {
@@ -211,8 +215,8 @@ pub fn oriented_fast(
     };
 
     // Iterate over every pixel in the image and find potential corners.
-    for y in edge_radius..height - edge_radius {
-        for x in edge_radius..width - edge_radius {
+    for y in min_y..max_y {
+        for x in min_x..max_x {
             if is_corner_fast9(image, local_threshold, x, y) {
                 let score = fast_corner_score(image, local_threshold, x, y, Fast::Nine);
                 corners.push(Corner::new(x, y, score as f32));
-- 
2.43.0


From e9ee46e0d74b0179c6069d47812d2230ad853b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 02/18] fix: oriented_fast threshold index when few points are
 sampled or no corners requested

---
 src/corners.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index dbd783f..4623b28 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -209,9 +209,9 @@ pub fn oriented_fast(
             .collect();
         fast_scores.sort();
         let target_corner_fraction = (target_num_corners as f32) / ((width * height) as f32);
-        let fraction_idx = (NUM_SAMPLE_POINTS as f32 * (1. - target_corner_fraction)) as usize;
+        let fraction_idx = (sample_size as f32 * (1. - target_corner_fraction)) as usize;
 
-        fast_scores[fraction_idx]
+        fast_scores[fraction_idx.min(sample_size - 1)]
     };
 
     // Iterate over every pixel in the image and find potential corners.
-- 
2.43.0


From 78beff495def84da003ec6e15911385f3fbd50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 03/18] fix: flood_fill with the colour already present never
 ended

---
 src/drawing/fill.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drawing/fill.rs b/src/drawing/fill.rs
index 74c05ab..ecfd2a7 100644
--- a/src/drawing/fill.rs
+++ b/src/drawing/fill.rs
@@ -18,6 +18,10 @@ where
     P: Pixel + PartialEq,
 {
     let target = *image.get_pixel(x, y);
+    if target == fill_with {
+        // Filling would not change any pixel, so visited pixels could not be told apart.
+        return;
+    }
 
     let mut stack = Vec::new();
 
-- 
2.43.0


From b42543da1cd355919c49dd82d5d7bc42f9ec3d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 04/18] fix: draw_polygon drew on the first row of canvases
 without rows

---
 src/drawing/polygon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawing/polygon.rs b/src/drawing/polygon.rs
index b3169f8..0d27d89 100644
--- a/src/drawing/polygon.rs
+++ b/src/drawing/polygon.rs
@@ -158,7 +158,7 @@ where
 
     // Intersect polygon vertical range with image bounds
     y_min = max(0, min(y_min, height as i32 - 1));
-    y_max = max(0, min(y_max, height as i32 - 1));
+    y_max = min(y_max, height as i32 - 1);
 
     let mut closed: Vec<Point<i32>> = poly.to_vec();
     let first = poly[0];
-- 
2.43.0


From 0d09e4765cb80543f28223eb79cc81cf96bc842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 05/18] fix: Kernel::new accepted dimensions whose product
 overflows

---
 src/kernel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel.rs b/src/kernel.rs
index 70a2c38..1ced867 100644
--- a/src/kernel.rs
+++ b/src/kernel.rs
@@ -20,10 +20,10 @@ where
     ///
     /// # Panics
     /// 1. If `width == 0 || height == 0`.
-    /// 2. If `width * height != data.len() as u32`.
+    /// 2. If `width * height != data.len()`.
     pub const fn new(data: &'a [K], width: u32, height: u32) -> Kernel<'a, K> {
         assert!(width > 0 && height > 0, "width and height must be non-zero");
-        assert!(width * height == data.len() as u32);
+        assert!(width as u64 * height as u64 == data.len() as u64);
         Kernel {
             data,
             width,
-- 
2.43.0


From eeafe23c31f2a529732a4a094cfd9f63032af0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 06/18] fix: median_filter bounds check overflowed for huge
 radii

---
 src/filter/median.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2ebe249..83dd885 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -118,7 +118,8 @@ where
     }
 
     // Safety note: we perform unchecked indexing in several places after checking at type i32 that a coordinate is in bounds
-    if (width + x_radius) > i32::MAX as u32 || (height + y_radius) > i32::MAX as u32 {
+    let in_range = |side: u32, radius: u32| side as u64 + radius as u64 <= i32::MAX as u64;
+    if !in_range(width, x_radius) || !in_range(height, y_radius) {
         panic!("(width + x_radius) and (height + y_radius) must both be <= i32::MAX");
     }
 
-- 
2.43.0


From c313678f097ad966dca3874c7f786febcf2120c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 07/18] fix: BresenhamLineIter never ended on lines reaching
 i32::MAX

---
 src/drawing/line.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/drawing/line.rs b/src/drawing/line.rs
index 2e8f962..e55ff1f 100644
--- a/src/drawing/line.rs
+++ b/src/drawing/line.rs
@@ -8,10 +8,11 @@ use std::mem::{swap, transmute};
 pub struct BresenhamLineIter {
     dx: f32,
     dy: f32,
-    x: i32,
+    // Wider than the coordinates, so that stepping past an end point of i32::MAX does not overflow.
+    x: i64,
     y: i32,
     error: f32,
-    end_x: i32,
+    end_x: i64,
     is_steep: bool,
     y_step: i32,
 }
@@ -39,10 +40,10 @@ impl BresenhamLineIter {
         BresenhamLineIter {
             dx,
             dy: (y1 - y0).abs(),
-            x: x0 as i32,
+            x: x0 as i32 as i64,
             y: y0 as i32,
             error: dx / 2f32,
-            end_x: x1 as i32,
+            end_x: x1 as i32 as i64,
             is_steep,
             y_step: if y0 < y1 { 1 } else { -1 },
         }
@@ -57,9 +58,9 @@ impl Iterator for BresenhamLineIter {
             None
         } else {
             let ret = if self.is_steep {
-                (self.y, self.x)
+                (self.y, self.x as i32)
             } else {
-                (self.x, self.y)
+                (self.x as i32, self.y)
             };
 
             self.x += 1;
-- 
2.43.0


From 7257943d8d2938af269cf1e7b408a32391b58711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 08/18] fix: draw_ellipse never ended for large radii

---
 src/drawing/conics.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/drawing/conics.rs b/src/drawing/conics.rs
index 9f4a9e0..f297465 100644
--- a/src/drawing/conics.rs
+++ b/src/drawing/conics.rs
@@ -124,17 +124,18 @@ where
     F: FnMut(i32, i32, i32, i32),
 {
     let (x0, y0) = center;
-    let w2 = (width_radius * width_radius) as f32;
-    let h2 = (height_radius * height_radius) as f32;
+    // 64-bit floats, as 32-bit integers overflow and 32-bit floats lose the increments for large radii.
+    let w2 = (width_radius as f64).powi(2);
+    let h2 = (height_radius as f64).powi(2);
     let mut x = 0;
     let mut y = height_radius;
     let mut px = 0.0;
-    let mut py = 2.0 * w2 * y as f32;
+    let mut py = 2.0 * w2 * y as f64;
 
     render_func(x0, y0, x, y);
 
     // Top and bottom regions.
-    let mut p = h2 - (w2 * height_radius as f32) + (0.25 * w2);
+    let mut p = h2 - (w2 * height_radius as f64) + (0.25 * w2);
     while px < py {
         x += 1;
         px += 2.0 * h2;
@@ -150,7 +151,7 @@ where
     }
 
     // Left and right regions.
-    p = h2 * (x as f32 + 0.5).powi(2) + (w2 * (y - 1).pow(2) as f32) - w2 * h2;
+    p = h2 * (x as f64 + 0.5).powi(2) + w2 * (y as f64 - 1.0).powi(2) - w2 * h2;
     while y > 0 {
         y -= 1;
         py += -2.0 * w2;
-- 
2.43.0


From 95eef57958cc87f5979a626edad4a3f0ad706e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 09/18] fix: Projection::from_control_points never ended on
 non-finite points

---
 src/geometric_transformations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 87ef25e..80ca078 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -167,7 +167,8 @@ impl Projection {
 
         let b = OVector::<_, U8>::from_row_slice(&[-y1, x1, -y2, x2, -y3, x3, -y4, x4]);
 
-        SVD::try_new(a, true, true, f64::default_epsilon(), 0)
+        // The iteration limit is never reached for matrices on which the algorithm converges.
+        SVD::try_new(a, true, true, f64::default_epsilon(), 1000)
             .and_then(|svd| svd.solve(&b, f64::default_epsilon()).ok())
             .and_then(|h| {
                 let mut transform = [
-- 
2.43.0


From fa23cd0cf8042affc336c60a1cfa25dabbc50bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 10/18] fix: brief read outside the image for test pairs
 outside the patch

---
 src/binary_descriptors/brief.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index 4283ce3..0ad0008 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -73,6 +73,10 @@ fn local_pixel_average(integral_image: &Image<Luma<u32>>, x: u32, y: u32, radius
     }
     let y_min = y.saturating_sub(radius);
     let x_min = x.saturating_sub(radius);
+    // test pairs provided by the user may lie outside of the image
+    if y_min >= integral_image.height() || x_min >= integral_image.width() {
+        return 0;
+    }
     let y_max = u32::min(y + radius + 1, integral_image.height() - 1);
     let x_max = u32::min(x + radius + 1, integral_image.width() - 1);
 
-- 
2.43.0


From 754e7de8296e25ab4a654eca59b46ecae37207c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 11/18] fix: brief accepted keypoints whose patch coordinates
 overflow

---
 src/binary_descriptors/brief.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index 0ad0008..a04d6d1 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -139,9 +139,9 @@ pub(crate) fn brief_impl(
     for keypoint in keypoints {
         // if the keypoint is too close to the edge, return an error
         if keypoint.x <= BRIEF_PATCH_RADIUS
-            || keypoint.x + BRIEF_PATCH_RADIUS >= width
+            || keypoint.x.saturating_add(BRIEF_PATCH_RADIUS) >= width
             || keypoint.y <= BRIEF_PATCH_RADIUS
-            || keypoint.y + BRIEF_PATCH_RADIUS >= height
+            || keypoint.y.saturating_add(BRIEF_PATCH_RADIUS) >= height
         {
             return Err(format!(
                 "Found keypoint within {} px of image edge: ({}, {})",
-- 
2.43.0


From 5eca3eca87044b20a2d4a9b0ebe2bfd210c4796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 12/18] fix: bilinear and bicubic interpolation read outside
 the image for NaN coordinates

---
 src/geometric_transformations.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 80ca078..3b8a0aa 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -761,6 +761,11 @@ where
     P: Pixel,
     <P as Pixel>::Subpixel: Into<f32> + Clamp<f32>,
 {
+    // comparisons with NaN are false, so that the bounds check below would let it pass
+    if x.is_nan() || y.is_nan() {
+        return default;
+    }
+
     let left = x.floor() - 1f32;
     let right = left + 4f32;
     let top = y.floor() - 1f32;
@@ -823,6 +828,11 @@ where
     P: Pixel,
     <P as Pixel>::Subpixel: Into<f32> + Clamp<f32>,
 {
+    // comparisons with NaN are false, so that the bounds check below would let it pass
+    if x.is_nan() || y.is_nan() {
+        return default;
+    }
+
     let left = x.floor();
     let right = left + 1f32;
     let top = y.floor();
-- 
2.43.0


From dd85c0289766b9e9a92515d819fad218423effe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 13/18] fix: approximate_polygon_dp never ended when rounding
 errors exceeded epsilon at the end point

---
 src/geometry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index c904efd..518b04d 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -36,7 +36,8 @@ where
     let mut index = 0;
     let end = curve.len() - 1;
     let line = Line::from_points(curve[0].to_f64(), curve[end].to_f64());
-    for (i, point) in curve.iter().enumerate().skip(1) {
+    // The end points are on the line, whatever distance rounding errors give them
+    for (i, point) in curve.iter().enumerate().take(end).skip(1) {
         let d = line.distance_from_point(point.to_f64());
         if d > dmax {
             index = i;
-- 
2.43.0


From df32150f116188acef12b5b4e34b8cd05306df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 14/18] fix: HogSpec accepted blocks larger than the grid of
 cells

---
 src/hog.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hog.rs b/src/hog.rs
index 793ae09..4230bb1 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -113,6 +113,13 @@ impl HogSpec {
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
         let mut errors: Vec<String> = vec![];
+        if options.block_side > cells_wide || options.block_side > cells_high {
+            errors.push(format!(
+                "block side {} is larger than the grid of {} x {} cells",
+                options.block_side, cells_wide, cells_high
+            ));
+            return Err(Self::invalid_options_message(&errors));
+        }
         if (cells_wide - options.block_side) % options.block_stride != 0 {
             errors.push(format!(
                 "block stride {} does not evenly divide (cells wide {} - block side {})",
-- 
2.43.0


From df9a96b2d187c6d9eaf6e77ed914deb2e684ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 15/18] fix: crop bounds check overflowed for huge rectangles

---
 src/compose.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compose.rs b/src/compose.rs
index ce70659..640d210 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -39,8 +39,8 @@ pub fn crop<P>(image: &Image<P>, rect: Rect) -> Image<P>
 where
     P: Pixel,
 {
-    assert!(rect.x + rect.width <= image.width());
-    assert!(rect.y + rect.height <= image.height());
+    assert!(rect.width <= image.width() && rect.x <= image.width() - rect.width);
+    assert!(rect.height <= image.height() && rect.y <= image.height() - rect.height);
 
     Image::from_fn(rect.width, rect.height, |x, y| {
         *image.get_pixel(rect.x + x, rect.y + y)
@@ -53,8 +53,8 @@ where
     P: Pixel + Send + Sync,
     P::Subpixel: Send + Sync,
 {
-    assert!(rect.x + rect.width <= image.width());
-    assert!(rect.y + rect.height <= image.height());
+    assert!(rect.width <= image.width() && rect.x <= image.width() - rect.width);
+    assert!(rect.height <= image.height() && rect.y <= image.height() - rect.height);
 
     Image::from_par_fn(rect.width, rect.height, |x, y| {
         *image.get_pixel(rect.x + x, rect.y + y)
-- 
2.43.0


From 022084ae6eb4ff23000cef239d81fee3db2a96fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 16/18] fix: remove_vertical_seam on images without columns
 wanted billions of columns

---
 src/seam_carving.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index 44d195c..71c3b3f 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -146,6 +146,7 @@ where
         seam.0.len() as u32 == image.height(),
         "seam length does not match image height"
     );
+    assert!(image.width() > 0, "image has no columns");
 
     let (width, height) = image.dimensions();
     let mut out = Image::new(width - 1, height);
-- 
2.43.0


From ceafc49ed9d9218c6367e92673e3855f2c9f533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 17/18] fix: display counted close requests for hidden windows
 and returned early

---
 src/window.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 0b6119d..3bc2ea7 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -144,7 +144,7 @@ where
                     ..
                 } => {
                     for (i, canvas) in canvases.iter_mut().enumerate() {
-                        if window_id == canvas.window().id() {
+                        if window_id == canvas.window().id() && window_visibility[i] {
                             canvas.window_mut().hide();
                             window_visibility[i] = false;
                             hidden_count += 1;
-- 
2.43.0


From 2417891ee4c70c674a8070642e90218b11ef1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 18/18] fix: display of elongated images scaled them to nothing

---
 src/window.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 3bc2ea7..0a25a04 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -195,8 +195,8 @@ where
         width_scale.min(height_scale)
     };
 
-    let height = (scale * image.height() as f32) as u32;
-    let width = (scale * image.width() as f32) as u32;
+    let height = ((scale * image.height() as f32) as u32).max(1);
+    let width = ((scale * image.width() as f32) as u32).max(1);
 
     resize(&image, width, height, FilterType::Triangle)
 }
-- 
2.43.0

