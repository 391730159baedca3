From efe076737dc2fc50c90d94aa4395f510ec4d778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 01/56] fix: clamp the double threshold range to valid gray
 values

The bounds threshold -/+ 16 were truncated to 8 bit, so that thresholds
below 16 or above 239 wrapped around and turned bright pixels black.
---
 src/conversion.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index fb47d7c..b6eb565 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -315,11 +315,13 @@ uint8_t *fcv_otsu_threshold_rgba(
   const int32_t threshold_range_offset = 16;
 
   if (use_double_threshold) {
+    int32_t lower_threshold = optimal_threshold - threshold_range_offset;
+    int32_t upper_threshold = optimal_threshold + threshold_range_offset;
     apply_double_threshold(
       img_length_px,
       grayscale_img,
-      optimal_threshold - threshold_range_offset,
-      optimal_threshold + threshold_range_offset
+      lower_threshold < 0 ? 0 : lower_threshold,
+      upper_threshold > 255 ? 255 : upper_threshold
     );
   }
   else {
-- 
2.43.0


From 57458334d73b3e9dc6d699ccd0feead2b936f3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 02/56] fix: search the Otsu threshold in double precision

Single precision sums lose the small classes of large images with little
contrast, so that a threshold without any separation could win.
---
 src/conversion.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index b6eb565..fac68d2 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -276,35 +276,33 @@ uint8_t *fcv_otsu_threshold_rgba(
     histogram[grayscale_img[i]]++;
   }
 
-  float histogram_norm[256] = {0};
-  for (uint32_t i = 0; i < 256; i++) {
-    histogram_norm[i] = (float)histogram[i] / img_length_px;
-  }
-
-  float global_mean = 0.0;
+  // Sums of integers are exact in double precision
+  double value_sum = 0.0;
 
   for (uint32_t i = 0; i < 256; i++) {
-    global_mean += i * histogram_norm[i];
+    value_sum += (double)i * histogram[i];
   }
 
-  float cumulative_sum = 0.0;
-  float cumulative_mean = 0.0;
-  float max_variance = 0.0;
+  double cumulative_count = 0.0;
+  double cumulative_value = 0.0;
+  double max_variance = 0.0;
   int32_t optimal_threshold = 0;
 
   for (uint32_t i = 0; i < 256; i++) {
-    cumulative_sum += histogram_norm[i];
-    cumulative_mean += i * histogram_norm[i];
+    cumulative_count += histogram[i];
+    cumulative_value += (double)i * histogram[i];
 
-    if (cumulative_sum == 0 || cumulative_sum == 1) {
+    if (cumulative_count == 0 || cumulative_count == img_length_px) {
       continue;
     }
 
-    float mean1 = cumulative_mean / cumulative_sum;
-    float mean2 = (global_mean - cumulative_mean) / (1 - cumulative_sum);
+    double fraction = cumulative_count / img_length_px;
+    double mean1 = cumulative_value / cumulative_count;
+    double mean2 =
+      (value_sum - cumulative_value) / (img_length_px - cumulative_count);
 
-    float class_variance =
-      cumulative_sum * (1 - cumulative_sum) * (mean1 - mean2) * (mean1 - mean2);
+    double class_variance =
+      fraction * (1 - fraction) * (mean1 - mean2) * (mean1 - mean2);
 
     if (class_variance > max_variance) {
       max_variance = class_variance;
-- 
2.43.0


From db5e22e9ab6affa835ad7eefca76dd4033ab2fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:41 +0000
Subject: [PATCH 03/56] fix: do not lose a pixel when resizing to an exact size

(a / w) * w can be slightly below a (e.g. 97 to 100 pixels gave 99, and
49 to 1 was rejected), so rounding down needs a rounding error slack.
---
 src/conversion.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index fac68d2..383e48f 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -627,9 +627,12 @@ uint8_t *fcv_resize(
     return NULL;
   }
 
-  // Check for overflow in output dimensions
-  double new_width_d = (double)width * resize_x;
-  double new_height_d = (double)height * resize_y;
+  // Check for overflow in output dimensions.
+  // A factor calculated as target / size can be off by a rounding error,
+  // which must not cost a whole pixel when the result is rounded down.
+  const double rounding_slack = 1.0 + 1e-14;
+  double new_width_d = (double)width * resize_x * rounding_slack;
+  double new_height_d = (double)height * resize_y * rounding_slack;
 
   if (new_width_d > UINT32_MAX || new_height_d > UINT32_MAX) {
     return NULL;
-- 
2.43.0


From e8bdc13f63d7def3efe6a0a678a00b6f7793bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:11 +0000
Subject: [PATCH 04/56] fix: address pixels of very large images with 64 bit
 indices

Byte offsets of images with 2^30 or more pixels wrapped around in
grayscale, contrast stretching, thresholding, blurring and resizing.
---
 src/conversion.c | 112 +++++++++++++++++++++++++----------------------
 1 file changed, 59 insertions(+), 53 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index 383e48f..9730737 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -54,8 +54,8 @@ fcv_grayscale(uint32_t width, uint32_t height, uint8_t const *const data) {
   }
 
   // Process each pixel row by row
-  for (uint32_t i = 0; i < width * height; i++) {
-    uint32_t rgba_index = i * 4;
+  for (size_t i = 0; i < num_pixels; i++) {
+    size_t rgba_index = i * 4;
 
     uint8_t r = data[rgba_index];
     uint8_t g = data[rgba_index + 1];
@@ -110,7 +110,7 @@ uint8_t *fcv_grayscale_stretch(
     return NULL;
   }
   // Ignore 1.5625 % of the pixels
-  uint32_t num_pixels_to_ignore = img_length_px >> 6;
+  size_t num_pixels_to_ignore = img_length_px >> 6;
 
   uint8_t *gray_values = malloc(img_length_px);
   if (!gray_values) { // Memory allocation failed
@@ -119,8 +119,8 @@ uint8_t *fcv_grayscale_stretch(
   }
 
   // Process each pixel row by row to get grayscale values
-  for (uint32_t i = 0; i < img_length_px; i++) {
-    uint32_t rgba_index = i * 4;
+  for (size_t i = 0; i < img_length_px; i++) {
+    size_t rgba_index = i * 4;
 
     uint8_t r = data[rgba_index];
     uint8_t g = data[rgba_index + 1];
@@ -130,12 +130,12 @@ uint8_t *fcv_grayscale_stretch(
   }
 
   // Use counting sort to find the 1.5625% darkest and brightest pixels
-  uint32_t histogram[256] = {0};
-  for (uint32_t i = 0; i < img_length_px; i++) {
+  size_t histogram[256] = {0};
+  for (size_t i = 0; i < img_length_px; i++) {
     histogram[gray_values[i]]++;
   }
 
-  uint32_t cumulative_count = 0;
+  size_t cumulative_count = 0;
   uint8_t min_val = 0;
   for (uint32_t i = 0; i < 256; i++) {
     cumulative_count += histogram[i];
@@ -161,7 +161,7 @@ uint8_t *fcv_grayscale_stretch(
 
   // Process each pixel row by row
   for (size_t i = 0; i < img_length_px; i++) {
-    uint32_t rgba_index = i * 4;
+    size_t rgba_index = i * 4;
 
     uint8_t r = data[rgba_index];
     uint8_t g = data[rgba_index + 1];
@@ -265,14 +265,18 @@ uint8_t *fcv_otsu_threshold_rgba(
     return NULL;
   }
 
+  size_t img_length_px = (size_t)width * height;
+  if (img_length_px > UINT32_MAX) {
+    return NULL;
+  }
+
   uint8_t *grayscale_img = fcv_rgba_to_grayscale(width, height, data);
   if (!grayscale_img) {
     return NULL;
   }
-  size_t img_length_px = (size_t)width * height;
 
   uint32_t histogram[256] = {0};
-  for (uint32_t i = 0; i < img_length_px; i++) {
+  for (size_t i = 0; i < img_length_px; i++) {
     histogram[grayscale_img[i]]++;
   }
 
@@ -413,13 +417,13 @@ uint8_t *fcv_apply_gaussian_blur(
       float weight_sum = 0.0;
 
       for (int32_t k = -radius; k <= radius; k++) {
-        int32_t x_offset = x + k;
-        if (x_offset < 0 || (uint32_t)x_offset >= width) {
+        int64_t x_offset = (int64_t)x + k;
+        if (x_offset < 0 || x_offset >= width) {
           continue;
         }
 
-        uint32_t img_index = y * width + x_offset;
-        uint32_t img_rgba_index = img_index * 4;
+        size_t img_index = (size_t)y * width + x_offset;
+        size_t img_rgba_index = img_index * 4;
 
         // Bounds check for array access
         if (img_rgba_index + 2 >= img_length_px * 4) {
@@ -434,7 +438,7 @@ uint8_t *fcv_apply_gaussian_blur(
         b_sum += data[img_rgba_index + 2] * weight;
       }
 
-      uint32_t rgba_index = (y * width + x) * 4;
+      size_t rgba_index = ((size_t)y * width + x) * 4;
       blurred_data[rgba_index] = r_sum / weight_sum;
       blurred_data[rgba_index + 1] = g_sum / weight_sum;
       blurred_data[rgba_index + 2] = b_sum / weight_sum;
@@ -463,13 +467,13 @@ uint8_t *fcv_apply_gaussian_blur(
       float weight_sum = 0.0;
 
       for (int32_t k = -radius; k <= radius; k++) {
-        int32_t y_offset = y + k;
-        if (y_offset < 0 || (uint32_t)y_offset >= height) {
+        int64_t y_offset = (int64_t)y + k;
+        if (y_offset < 0 || y_offset >= height) {
           continue;
         }
 
-        uint32_t img_index = y_offset * width + x;
-        uint32_t img_rgba_index = img_index * 4;
+        size_t img_index = (size_t)y_offset * width + x;
+        size_t img_rgba_index = img_index * 4;
 
         float weight = kernel[k + (int32_t)radius];
         weight_sum += weight;
@@ -479,7 +483,7 @@ uint8_t *fcv_apply_gaussian_blur(
         b_sum += temp_data[img_rgba_index + 2] * weight;
       }
 
-      uint32_t rgba_index = (y * width + x) * 4;
+      size_t rgba_index = ((size_t)y * width + x) * 4;
       blurred_data[rgba_index] = r_sum / weight_sum;
       blurred_data[rgba_index + 1] = g_sum / weight_sum;
       blurred_data[rgba_index + 2] = b_sum / weight_sum;
@@ -559,8 +563,8 @@ uint8_t *fcv_bw_smart(
 
   // Subtract blurred image from the original image to get the high frequencies
   // and invert the high frequencies to get a white background.
-  for (uint32_t i = 0; i < img_length_px; i++) {
-    uint32_t rgba_idx = i * 4;
+  for (size_t i = 0; i < img_length_px; i++) {
+    size_t rgba_idx = i * 4;
     int32_t high_freq_val =
       127 + grayscale_data[rgba_idx] - blurred_data[rgba_idx];
 
@@ -663,6 +667,8 @@ uint8_t *fcv_resize(
 
   for (uint32_t out_y = 0; out_y < *out_height; out_y++) {
     for (uint32_t out_x = 0; out_x < *out_width; out_x++) {
+      size_t out_idx = ((size_t)out_y * *out_width + out_x) * 4;
+
       if (resize_x < 1.0 || resize_y < 1.0) {
         double src_x = (out_x + 0.5) / resize_x - 0.5;
         double src_y = (out_y + 0.5) / resize_y - 0.5;
@@ -675,10 +681,10 @@ uint8_t *fcv_resize(
         double x_end = src_x + filter_size_x * 0.5;
         double y_end = src_y + filter_size_y * 0.5;
 
-        int32_t ix_start = (int32_t)floor(x_start);
-        int32_t iy_start = (int32_t)floor(y_start);
-        int32_t ix_end = (int32_t)ceil(x_end);
-        int32_t iy_end = (int32_t)ceil(y_end);
+        int64_t ix_start = (int64_t)floor(x_start);
+        int64_t iy_start = (int64_t)floor(y_start);
+        int64_t ix_end = (int64_t)ceil(x_end);
+        int64_t iy_end = (int64_t)ceil(y_end);
 
         if (ix_start < 0) {
           ix_start = 0;
@@ -686,18 +692,18 @@ uint8_t *fcv_resize(
         if (iy_start < 0) {
           iy_start = 0;
         }
-        if (ix_end > (int32_t)width) {
+        if (ix_end > (int64_t)width) {
           ix_end = width;
         }
-        if (iy_end > (int32_t)height) {
+        if (iy_end > (int64_t)height) {
           iy_end = height;
         }
 
         double r_sum = 0.0, g_sum = 0.0, b_sum = 0.0;
         double total_weight = 0.0;
 
-        for (int32_t sy = iy_start; sy < iy_end; sy++) {
-          for (int32_t sx = ix_start; sx < ix_end; sx++) {
+        for (int64_t sy = iy_start; sy < iy_end; sy++) {
+          for (int64_t sx = ix_start; sx < ix_end; sx++) {
             double left = sx;
             double right = sx + 1;
             double top = sy;
@@ -713,7 +719,7 @@ uint8_t *fcv_resize(
                 (overlap_right - overlap_left) * (overlap_bottom - overlap_top);
               total_weight += weight;
 
-              uint32_t src_idx = (sy * width + sx) * 4;
+              size_t src_idx = ((size_t)sy * width + sx) * 4;
               r_sum += data[src_idx] * weight;
               g_sum += data[src_idx + 1] * weight;
               b_sum += data[src_idx + 2] * weight;
@@ -722,28 +728,28 @@ uint8_t *fcv_resize(
         }
 
         if (total_weight > 0.0) {
-          resized_data[(out_y * *out_width + out_x) * 4] =
+          resized_data[out_idx] =
             (uint8_t)(r_sum / total_weight + 0.5);
-          resized_data[(out_y * *out_width + out_x) * 4 + 1] =
+          resized_data[out_idx + 1] =
             (uint8_t)(g_sum / total_weight + 0.5);
-          resized_data[(out_y * *out_width + out_x) * 4 + 2] =
+          resized_data[out_idx + 2] =
             (uint8_t)(b_sum / total_weight + 0.5);
         }
         else {
-          resized_data[(out_y * *out_width + out_x) * 4] = 0;
-          resized_data[(out_y * *out_width + out_x) * 4 + 1] = 0;
-          resized_data[(out_y * *out_width + out_x) * 4 + 2] = 0;
+          resized_data[out_idx] = 0;
+          resized_data[out_idx + 1] = 0;
+          resized_data[out_idx + 2] = 0;
         }
-        resized_data[(out_y * *out_width + out_x) * 4 + 3] = 255;
+        resized_data[out_idx + 3] = 255;
       }
       else {
         double src_x = (out_x + 0.5) / resize_x - 0.5;
         double src_y = (out_y + 0.5) / resize_y - 0.5;
 
-        int32_t x0 = (int32_t)floor(src_x);
-        int32_t y0 = (int32_t)floor(src_y);
-        int32_t x1 = x0 + 1;
-        int32_t y1 = y0 + 1;
+        int64_t x0 = (int64_t)floor(src_x);
+        int64_t y0 = (int64_t)floor(src_y);
+        int64_t x1 = x0 + 1;
+        int64_t y1 = y0 + 1;
 
         if (x0 < 0) {
           x0 = 0;
@@ -751,11 +757,11 @@ uint8_t *fcv_resize(
         if (y0 < 0) {
           y0 = 0;
         }
-        if (x1 >= (int32_t)width) {
-          x1 = width - 1;
+        if (x1 >= (int64_t)width) {
+          x1 = (int64_t)width - 1;
         }
-        if (y1 >= (int32_t)height) {
-          y1 = height - 1;
+        if (y1 >= (int64_t)height) {
+          y1 = (int64_t)height - 1;
         }
 
         double dx = src_x - x0;
@@ -775,20 +781,20 @@ uint8_t *fcv_resize(
         }
 
         for (int32_t c = 0; c < 3; c++) {
-          uint8_t p00 = data[(y0 * width + x0) * 4 + c];
-          uint8_t p01 = data[(y0 * width + x1) * 4 + c];
-          uint8_t p10 = data[(y1 * width + x0) * 4 + c];
-          uint8_t p11 = data[(y1 * width + x1) * 4 + c];
+          uint8_t p00 = data[((size_t)y0 * width + x0) * 4 + c];
+          uint8_t p01 = data[((size_t)y0 * width + x1) * 4 + c];
+          uint8_t p10 = data[((size_t)y1 * width + x0) * 4 + c];
+          uint8_t p11 = data[((size_t)y1 * width + x1) * 4 + c];
 
           double interpolated = p00 * (1 - dx) * (1 - dy) +
                                 p01 * dx * (1 - dy) + p10 * (1 - dx) * dy +
                                 p11 * dx * dy;
 
-          resized_data[(out_y * *out_width + out_x) * 4 + c] =
+          resized_data[out_idx + c] =
             (uint8_t)(interpolated + 0.5);
         }
 
-        resized_data[(out_y * *out_width + out_x) * 4 + 3] = 255;
+        resized_data[out_idx + 3] = 255;
       }
     }
   }
-- 
2.43.0


From 4ccda3a68d052bfd9045d7ac68a17c53d8663fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 05/56] fix: blur with a tiny radius

The variance underflowed to zero, which made the weights NaN.
---
 src/conversion.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/conversion.c b/src/conversion.c
index 9730737..074e149 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -405,7 +405,9 @@ uint8_t *fcv_apply_gaussian_blur(
 
   for (uint32_t i = 0; i < kernel_size; i++) {
     int32_t x = i - radius;
-    kernel[i] = exp(-(x * x) / two_sigma_sq) / sqrt_two_pi_sigma;
+    // Below a radius of 1 only the center is used and sigma can underflow
+    kernel[i] =
+      radius < 1 ? 1 : exp(-(x * x) / two_sigma_sq) / sqrt_two_pi_sigma;
   }
 
   // Apply the kernel in the horizontal direction
-- 
2.43.0


From 4fc6ea3df2633190abc9fa053f0cd64765f8d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 06/56] fix: draw circles with their requested radius

The decision variable was updated with already advanced coordinates, which
flattened the diagonals by more than a pixel, and the last step left the
octant, so that a radius of 0 painted an X shape instead of one pixel.
---
 src/draw.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index 7c0375c..5916b42 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -163,15 +163,15 @@ void fcv_draw_circle(
   // Initial points
   fcv_draw_circle_points(data, width, height, channels, cx, cy, x, y, r, g, b);
 
-  while (y >= x) {
-    x++;
+  while (y > x) {
     if (d > 0) {
-      y--;
       d = d + 4 * (x - y) + 10;
+      y--;
     }
     else {
       d = d + 4 * x + 6;
     }
+    x++;
     fcv_draw_circle_points(
       data,
       width,
@@ -243,15 +243,15 @@ void fcv_draw_disk(
   // Initial filled lines
   fcv_fill_disk_lines(data, width, height, channels, cx, cy, x, y, r, g, b);
 
-  while (y >= x) {
-    x++;
+  while (y > x) {
     if (d > 0) {
-      y--;
       d = d + 4 * (x - y) + 10;
+      y--;
     }
     else {
       d = d + 4 * x + 6;
     }
+    x++;
     fcv_fill_disk_lines(data, width, height, channels, cx, cy, x, y, r, g, b);
   }
 }
-- 
2.43.0


From 15cea00b1e74c84243d90f7a8918186a7f537078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:42 +0000
Subject: [PATCH 07/56] fix: draw circles and disks with extreme coordinates

Centers outside of the 32 bit range were cast with undefined results, the
decision variable overflowed for large radii, and large disks were filled
pixel by pixel outside of the image, which never finished.
---
 src/draw.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index 5916b42..af1a3e5 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -92,8 +92,13 @@ void fcv_fill_disk_lines(
   uint8_t g,
   uint8_t b
 ) {
+  // Skip the parts of the lines left and right of the image
+  const int32_t last = width > INT32_MAX ? INT32_MAX - 1 : (int32_t)width - 1;
+
   // Fill horizontal lines at y offsets
-  for (int32_t i = cx - x; i <= cx + x; i++) {
+  int32_t start = cx - x > 0 ? cx - x : 0;
+  int32_t end = cx + x < last ? cx + x : last;
+  for (int32_t i = start; i <= end; i++) {
     fcv_set_circle_pixel(data, width, height, channels, i, cy + y, r, g, b);
     fcv_set_circle_pixel(data, width, height, channels, i, cy - y, r, g, b);
   }
@@ -101,7 +106,9 @@ void fcv_fill_disk_lines(
   // Fill horizontal lines at x offsets
   // (avoid duplicating center line when x == y)
   if (x != y) {
-    for (int32_t i = cx - y; i <= cx + y; i++) {
+    start = cx - y > 0 ? cx - y : 0;
+    end = cx + y < last ? cx + y : last;
+    for (int32_t i = start; i <= end; i++) {
       fcv_set_circle_pixel(data, width, height, channels, i, cy + x, r, g, b);
       fcv_set_circle_pixel(data, width, height, channels, i, cy - x, r, g, b);
     }
@@ -142,8 +149,10 @@ void fcv_draw_circle(
     return;
   }
 
-  // Reject excessive radius to prevent integer overflow in Bresenham algorithm
-  if (radius > INT32_MAX / 2) {
+  // Reject excessive radius and center coordinates to prevent integer overflow
+  // in Bresenham algorithm
+  if (radius > INT32_MAX / 2 || fabs(center_x) > INT32_MAX / 2 ||
+      fabs(center_y) > INT32_MAX / 2) {
     return;
   }
 
@@ -158,18 +167,18 @@ void fcv_draw_circle(
   // Bresenham's circle algorithm
   int32_t x = 0;
   int32_t y = radius_int32_t;
-  int32_t d = 3 - 2 * radius_int32_t;
+  int64_t d = 3 - 2 * (int64_t)radius_int32_t;
 
   // Initial points
   fcv_draw_circle_points(data, width, height, channels, cx, cy, x, y, r, g, b);
 
   while (y > x) {
     if (d > 0) {
-      d = d + 4 * (x - y) + 10;
+      d = d + 4 * ((int64_t)x - y) + 10;
       y--;
     }
     else {
-      d = d + 4 * x + 6;
+      d = d + 4 * (int64_t)x + 6;
     }
     x++;
     fcv_draw_circle_points(
@@ -222,8 +231,10 @@ void fcv_draw_disk(
     return;
   }
 
-  // Reject excessive radius to prevent integer overflow in Bresenham algorithm
-  if (radius > INT32_MAX / 2) {
+  // Reject excessive radius and center coordinates to prevent integer overflow
+  // in Bresenham algorithm
+  if (radius > INT32_MAX / 2 || fabs(center_x) > INT32_MAX / 2 ||
+      fabs(center_y) > INT32_MAX / 2) {
     return;
   }
 
@@ -238,18 +249,18 @@ void fcv_draw_disk(
   // Bresenham's circle algorithm for filled disk
   int32_t x = 0;
   int32_t y = radius_int32_t;
-  int32_t d = 3 - 2 * radius_int32_t;
+  int64_t d = 3 - 2 * (int64_t)radius_int32_t;
 
   // Initial filled lines
   fcv_fill_disk_lines(data, width, height, channels, cx, cy, x, y, r, g, b);
 
   while (y > x) {
     if (d > 0) {
-      d = d + 4 * (x - y) + 10;
+      d = d + 4 * ((int64_t)x - y) + 10;
       y--;
     }
     else {
-      d = d + 4 * x + 6;
+      d = d + 4 * (int64_t)x + 6;
     }
     x++;
     fcv_fill_disk_lines(data, width, height, channels, cx, cy, x, y, r, g, b);
-- 
2.43.0


From faea353d5c7e0f6b5a3cd7701c89a6cbde4232c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:42 +0000
Subject: [PATCH 08/56] fix: add borders to very large images with 64 bit
 indices

---
 src/draw.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index af1a3e5..68ce38a 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -333,7 +333,7 @@ uint8_t *fcv_add_border(
   // Fill the entire output image with border color
   for (uint32_t y = 0; y < *output_height; y++) {
     for (uint32_t x = 0; x < *output_width; x++) {
-      uint32_t pixel_index = (y * *output_width + x) * channels;
+      size_t pixel_index = ((size_t)y * *output_width + x) * channels;
 
       if (channels == 1) {
         // Grayscale: use luminance formula
@@ -353,9 +353,10 @@ uint8_t *fcv_add_border(
   // Copy the original image into the center
   for (uint32_t y = 0; y < height; y++) {
     for (uint32_t x = 0; x < width; x++) {
-      uint32_t src_index = (y * width + x) * channels;
-      uint32_t dst_index =
-        ((y + border_width) * *output_width + (x + border_width)) * channels;
+      size_t src_index = ((size_t)y * width + x) * channels;
+      size_t dst_index =
+        ((size_t)(y + border_width) * *output_width + (x + border_width)) *
+        channels;
 
       for (uint32_t c = 0; c < channels; c++) {
         output_data[dst_index + c] = input_data[src_index + c];
-- 
2.43.0


From 1abc3ebd9021aa2e125450659c51098d47b30dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:42 +0000
Subject: [PATCH 09/56] fix: refuse borders for unsupported channel counts

The border was left uninitialised for images with 2 or more than 4 channels.
---
 src/draw.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/draw.c b/src/draw.c
index 68ce38a..5d004cd 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -292,7 +292,12 @@ uint8_t *fcv_add_border(
   uint32_t *output_height
 ) {
   if (!input_data || !output_width || !output_height || !hex_color ||
-      border_width == 0 || channels == 0) {
+      border_width == 0) {
+    return NULL;
+  }
+
+  // The border color is only defined for 1, 3, and 4 channels
+  if (channels != 1 && channels != 3 && channels != 4) {
     return NULL;
   }
 
-- 
2.43.0


From 781bde69324543d1b8a67566964c0bcb566f26e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 10/56] fix: trim until no uniform border is left

As documented, trimming is repeated: Removing rows can make columns uniform
that were checked before.
---
 src/trim.c | 76 +++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 72 insertions(+), 4 deletions(-)

diff --git a/src/trim.c b/src/trim.c
index 63680ee..07ce9e8 100644
--- a/src/trim.c
+++ b/src/trim.c
@@ -52,7 +52,7 @@ static bool pixels_match_threshold(
 }
 
 /**
- * Trim border pixels that have the same color.
+ * Trim uniform lines once from each side.
  *
  * @param width Pointer to width of the image (will be updated).
  * @param height Pointer to height of the image (will be updated).
@@ -60,7 +60,7 @@ static bool pixels_match_threshold(
  * @param data Pointer to the pixel data.
  * @return Pointer to the new trimmed image data.
  */
-uint8_t *fcv_trim(
+static uint8_t *trim_once(
   int32_t *width,
   int32_t *height,
   uint32_t channels,
@@ -198,7 +198,38 @@ uint8_t *fcv_trim(
 }
 
 /**
- * Trim border pixels that are within a threshold of the reference color.
+ * Trim border pixels that have the same color.
+ *
+ * @param width Pointer to width of the image (will be updated).
+ * @param height Pointer to height of the image (will be updated).
+ * @param channels Number of channels in the image.
+ * @param data Pointer to the pixel data.
+ * @return Pointer to the new trimmed image data.
+ */
+uint8_t *fcv_trim(
+  int32_t *width,
+  int32_t *height,
+  uint32_t channels,
+  uint8_t const *const data
+) {
+  int32_t last_width = width ? *width : 0;
+  int32_t last_height = height ? *height : 0;
+  uint8_t *result = trim_once(width, height, channels, data);
+
+  // Removed rows can leave further columns uniform and vice versa
+  while (result && (*width != last_width || *height != last_height)) {
+    last_width = *width;
+    last_height = *height;
+    uint8_t *trimmed_data = trim_once(width, height, channels, result);
+    free(result);
+    result = trimmed_data;
+  }
+
+  return result;
+}
+
+/**
+ * Trim lines that are uniform within a threshold once from each side.
  * This is useful for images with JPEG artifacts or slight vignetting.
  *
  * @param width Pointer to width of the image (will be updated).
@@ -209,7 +240,7 @@ uint8_t *fcv_trim(
  *        pixels within 2% (≈5 units) of the reference color will be trimmed.
  * @return Pointer to the new trimmed image data.
  */
-uint8_t *fcv_trim_threshold(
+static uint8_t *trim_threshold_once(
   int32_t *width,
   int32_t *height,
   uint32_t channels,
@@ -364,3 +395,40 @@ uint8_t *fcv_trim_threshold(
 
   return trimmed_data;
 }
+
+/**
+ * Trim border pixels that are within a threshold of the reference color.
+ * This is useful for images with JPEG artifacts or slight vignetting.
+ *
+ * @param width Pointer to width of the image (will be updated).
+ * @param height Pointer to height of the image (will be updated).
+ * @param channels Number of channels in the image.
+ * @param data Pointer to the pixel data.
+ * @param threshold_percent Tolerance percentage (0-100). A value of 2 means
+ *        pixels within 2% (≈5 units) of the reference color will be trimmed.
+ * @return Pointer to the new trimmed image data.
+ */
+uint8_t *fcv_trim_threshold(
+  int32_t *width,
+  int32_t *height,
+  uint32_t channels,
+  uint8_t const *const data,
+  double threshold_percent
+) {
+  int32_t last_width = width ? *width : 0;
+  int32_t last_height = height ? *height : 0;
+  uint8_t *result =
+    trim_threshold_once(width, height, channels, data, threshold_percent);
+
+  // Removed rows can leave further columns uniform and vice versa
+  while (result && (*width != last_width || *height != last_height)) {
+    last_width = *width;
+    last_height = *height;
+    uint8_t *trimmed_data =
+      trim_threshold_once(width, height, channels, result, threshold_percent);
+    free(result);
+    result = trimmed_data;
+  }
+
+  return result;
+}
-- 
2.43.0


From f52374999bbbea34bbdf7bf3458d08b07c83cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 11/56] fix: trim very large images with 64 bit indices

---
 src/trim.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trim.c b/src/trim.c
index 07ce9e8..9386da5 100644
--- a/src/trim.c
+++ b/src/trim.c
@@ -71,7 +71,7 @@ static uint8_t *trim_once(
     return NULL;
   }
 
-  uint32_t w = (uint32_t)*width;
+  size_t w = (uint32_t)*width;
   uint32_t h = (uint32_t)*height;
 
   // Check for potential overflow in pixel index calculations
@@ -271,7 +271,7 @@ static uint8_t *trim_threshold_once(
     return fcv_trim(width, height, channels, data);
   }
 
-  uint32_t w = (uint32_t)*width;
+  size_t w = (uint32_t)*width;
   uint32_t h = (uint32_t)*height;
 
   // Check for potential overflow in pixel index calculations
-- 
2.43.0


From b053e0ae659bd9a1d656851b94479ff1c2812e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:05 +0000
Subject: [PATCH 12/56] fix: avoid signed overflow when reading 32 bit EXIF
 values

---
 src/exif.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exif.c b/src/exif.c
index 50415a2..aaf3c55 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -23,9 +23,11 @@ static uint32_t read_u32(FILE *file, int is_little_endian) {
     return 0;
   }
   if (is_little_endian) {
-    return (uint32_t)(buf[0] | (buf[1] << 8) | (buf[2] << 16) | (buf[3] << 24));
+    return (uint32_t)buf[0] | ((uint32_t)buf[1] << 8) |
+           ((uint32_t)buf[2] << 16) | ((uint32_t)buf[3] << 24);
   }
-  return (uint32_t)((buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3]);
+  return ((uint32_t)buf[0] << 24) | ((uint32_t)buf[1] << 16) |
+         ((uint32_t)buf[2] << 8) | (uint32_t)buf[3];
 }
 
 int32_t fcv_get_exif_orientation(char const *filename) {
-- 
2.43.0


From 6e1a17ec3e845604ca6c67f8b2ddf945730e0dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:05 +0000
Subject: [PATCH 13/56] fix: report invalid EXIF orientations as 1

Only 1 to 8 are defined, and a truncated file yielded 0.
---
 src/exif.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exif.c b/src/exif.c
index aaf3c55..1aa48b9 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -98,7 +98,7 @@ int32_t fcv_get_exif_orientation(char const *filename) {
         if (tag == 0x0112) { // Orientation
           uint16_t orientation = read_u16(file, is_little_endian);
           fclose(file);
-          return (int32_t)orientation;
+          return orientation >= 1 && orientation <= 8 ? (int32_t)orientation : 1;
         }
         else {
           fseek(file, 4, SEEK_CUR); // Skip value/offset
-- 
2.43.0


From 54e83139bafe4c95ff6043d1da463fbde649f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:29 +0000
Subject: [PATCH 14/56] fix: skip fill bytes when looking for the EXIF segment

They were taken for a marker, and the orientation was not found.
---
 src/exif.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exif.c b/src/exif.c
index 1aa48b9..aa9d7ef 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -49,6 +49,10 @@ int32_t fcv_get_exif_orientation(char const *filename) {
       break;
     }
 
+    // Any number of fill bytes can precede the marker code
+    while (marker[1] == 0xFF && fread(&marker[1], 1, 1, file) == 1) {
+    }
+
     if (marker[1] == 0xD9 || marker[1] == 0xDA) { // EOI or SOS
       break;
     }
-- 
2.43.0


From dd32832e6f1612b9a9f7e31c683339bd254d8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:29 +0000
Subject: [PATCH 15/56] fix: do not hang on JPEG files that end after a marker

The missing size was taken as 0, so that the file position moved back to the
marker forever.
---
 src/exif.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exif.c b/src/exif.c
index aa9d7ef..bd9c4f1 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -58,6 +58,9 @@ int32_t fcv_get_exif_orientation(char const *filename) {
     }
 
     uint16_t size = read_u16(file, 0); // Markers are always big-endian
+    if (size < 2) {
+      break; // The size includes its own 2 bytes, so the file is broken
+    }
 
     if (marker[1] == 0xE1) { // APP1 - EXIF
       uint8_t exif_header[6];
-- 
2.43.0


From e761bbbbf16b0bee4c8ec23ccfbf9e1f1405d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:29 +0000
Subject: [PATCH 16/56] fix: accept a missing filename when reading the EXIF
 orientation

---
 src/exif.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exif.c b/src/exif.c
index bd9c4f1..c58060a 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -31,6 +31,10 @@ static uint32_t read_u32(FILE *file, int is_little_endian) {
 }
 
 int32_t fcv_get_exif_orientation(char const *filename) {
+  if (!filename) {
+    return 1;
+  }
+
   FILE *file = fopen(filename, "rb");
   if (!file) {
     return 1;
-- 
2.43.0


From 9e88da0dd8f6bc2c2420bf75ce1872adfb44b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:29 +0000
Subject: [PATCH 17/56] fix: detect edges of RGB images

Images with 3 channels were read as if they had 4, past their end.
---
 src/sobel_edge_detection.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sobel_edge_detection.c b/src/sobel_edge_detection.c
index 755e692..8d89845 100644
--- a/src/sobel_edge_detection.c
+++ b/src/sobel_edge_detection.c
@@ -34,7 +34,8 @@ uint8_t *fcv_sobel_edge_detection(
   uint32_t channels,
   uint8_t const *const data
 ) {
-  if (!data || width == 0 || height == 0 || channels == 0) {
+  if (!data || width == 0 || height == 0 ||
+      (channels != 1 && channels != 3 && channels != 4)) {
     return NULL;
   }
 
@@ -57,6 +58,20 @@ uint8_t *fcv_sobel_edge_detection(
     grayscale_data = (uint8_t *)data;
     allocated_grayscale = false;
   }
+  else if (channels == 3) {
+    // RGB input, convert to grayscale
+    grayscale_data = malloc(img_length_px);
+    if (!grayscale_data) {
+      return NULL;
+    }
+    allocated_grayscale = true;
+
+    for (size_t i = 0; i < img_length_px; i++) {
+      grayscale_data[i] = (data[i * 3] * R_WEIGHT + data[i * 3 + 1] * G_WEIGHT +
+                           data[i * 3 + 2] * B_WEIGHT) >>
+                          8;
+    }
+  }
   else {
     // Multi-channel input, convert to grayscale
     grayscale_data = fcv_rgba_to_grayscale(width, height, data);
-- 
2.43.0


From 15194bbe86de910e136d8b374191aa27b4541226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:51 +0000
Subject: [PATCH 18/56] fix: compute the corner response of images smaller than
 the window

height - half_kernel wrapped around, and the response was smoothed with
values outside of the image. Infinite and huge sigmas were cast to int.
---
 src/foerstner_corner.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index 9743a2f..32d3e5a 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -23,7 +23,7 @@ uint8_t *fcv_foerstner_corner(
   uint8_t const *const gray_data,
   double sigma
 ) {
-  if (!gray_data || width == 0 || height == 0) {
+  if (!gray_data || width == 0 || height == 0 || !isfinite(sigma)) {
     return NULL;
   }
 
@@ -87,11 +87,13 @@ uint8_t *fcv_foerstner_corner(
 
   // Apply Gaussian smoothing to structure tensor elements
   // For simplicity, use a basic box filter approximation when sigma is small
-  int32_t kernel_size = (int32_t)(3 * sigma) | 1; // Ensure odd size
+  // (A window which is larger than the image never fits.)
+  sigma = fmin(fmax(sigma, 0), fmax(width, height));
+  int64_t kernel_size = (int64_t)(3 * sigma) | 1; // Ensure odd size
   if (kernel_size < 3) {
     kernel_size = 3;
   }
-  int32_t half_kernel = kernel_size / 2;
+  int64_t half_kernel = kernel_size / 2;
 
   double *Axx_smooth = calloc(width * height, sizeof(double));
   double *Axy_smooth = calloc(width * height, sizeof(double));
@@ -110,15 +112,15 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Simple box filter smoothing
-  for (uint32_t y = half_kernel; y < height - half_kernel; y++) {
-    for (uint32_t x = half_kernel; x < width - half_kernel; x++) {
+  for (int64_t y = half_kernel; y < height - half_kernel; y++) {
+    for (int64_t x = half_kernel; x < width - half_kernel; x++) {
       uint32_t idx = y * width + x;
       double sum_xx = 0.0, sum_xy = 0.0, sum_yy = 0.0;
-      int32_t count = 0;
+      int64_t count = 0;
 
-      for (int32_t ky = -half_kernel; ky <= half_kernel; ky++) {
-        for (int32_t kx = -half_kernel; kx <= half_kernel; kx++) {
-          int32_t sample_idx = (y + ky) * width + (x + kx);
+      for (int64_t ky = -half_kernel; ky <= half_kernel; ky++) {
+        for (int64_t kx = -half_kernel; kx <= half_kernel; kx++) {
+          int64_t sample_idx = (y + ky) * width + (x + kx);
           sum_xx += Axx[sample_idx];
           sum_xy += Axy[sample_idx];
           sum_yy += Ayy[sample_idx];
-- 
2.43.0


From 55c75f9ef9bd025d947293e9aa05bf8411c94973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:51 +0000
Subject: [PATCH 19/56] fix: compute the corner response of very large images

The buffers were allocated with a wrapped 32 bit size.
---
 src/foerstner_corner.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index 32d3e5a..4ab192c 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -27,9 +27,15 @@ uint8_t *fcv_foerstner_corner(
     return NULL;
   }
 
+  // Check for overflow: width * height * sizeof(double)
+  size_t num_pixels = (size_t)width * height;
+  if (num_pixels > SIZE_MAX / sizeof(double)) {
+    return NULL;
+  }
+
   // Allocate memory for gradient images
-  double *grad_x = calloc(width * height, sizeof(double));
-  double *grad_y = calloc(width * height, sizeof(double));
+  double *grad_x = calloc(num_pixels, sizeof(double));
+  double *grad_y = calloc(num_pixels, sizeof(double));
 
   if (!grad_x || !grad_y) {
     free(grad_x);
@@ -38,9 +44,9 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Compute image gradients using Sobel-like operators
-  for (uint32_t y = 1; y < height - 1; y++) {
+  for (size_t y = 1; y < height - 1; y++) {
     for (uint32_t x = 1; x < width - 1; x++) {
-      uint32_t idx = y * width + x;
+      size_t idx = y * width + x;
 
       // Sobel X kernel: [-1 0 1; -2 0 2; -1 0 1]
       double gx = 0.0;
@@ -66,9 +72,9 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Compute gradient products for structure tensor
-  double *Axx = malloc(width * height * sizeof(double));
-  double *Axy = malloc(width * height * sizeof(double));
-  double *Ayy = malloc(width * height * sizeof(double));
+  double *Axx = malloc(num_pixels * sizeof(double));
+  double *Axy = malloc(num_pixels * sizeof(double));
+  double *Ayy = malloc(num_pixels * sizeof(double));
 
   if (!Axx || !Axy || !Ayy) {
     free(grad_x);
@@ -79,7 +85,7 @@ uint8_t *fcv_foerstner_corner(
     return NULL;
   }
 
-  for (uint32_t i = 0; i < width * height; i++) {
+  for (size_t i = 0; i < num_pixels; i++) {
     Axx[i] = grad_x[i] * grad_x[i];
     Axy[i] = grad_x[i] * grad_y[i];
     Ayy[i] = grad_y[i] * grad_y[i];
@@ -95,9 +101,9 @@ uint8_t *fcv_foerstner_corner(
   }
   int64_t half_kernel = kernel_size / 2;
 
-  double *Axx_smooth = calloc(width * height, sizeof(double));
-  double *Axy_smooth = calloc(width * height, sizeof(double));
-  double *Ayy_smooth = calloc(width * height, sizeof(double));
+  double *Axx_smooth = calloc(num_pixels, sizeof(double));
+  double *Axy_smooth = calloc(num_pixels, sizeof(double));
+  double *Ayy_smooth = calloc(num_pixels, sizeof(double));
 
   if (!Axx_smooth || !Axy_smooth || !Ayy_smooth) {
     free(grad_x);
@@ -114,7 +120,7 @@ uint8_t *fcv_foerstner_corner(
   // Simple box filter smoothing
   for (int64_t y = half_kernel; y < height - half_kernel; y++) {
     for (int64_t x = half_kernel; x < width - half_kernel; x++) {
-      uint32_t idx = y * width + x;
+      size_t idx = y * width + x;
       double sum_xx = 0.0, sum_xy = 0.0, sum_yy = 0.0;
       int64_t count = 0;
 
@@ -135,7 +141,7 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Compute Foerstner measures w and q
-  uint8_t *result = malloc(width * height * 2); // 2 channels: w, q
+  uint8_t *result = malloc(num_pixels * 2); // 2 channels: w, q
   if (!result) {
     free(grad_x);
     free(grad_y);
@@ -149,8 +155,8 @@ uint8_t *fcv_foerstner_corner(
   }
 
   double max_w = 0.0, max_q = 0.0;
-  double *w_values = malloc(width * height * sizeof(double));
-  double *q_values = malloc(width * height * sizeof(double));
+  double *w_values = malloc(num_pixels * sizeof(double));
+  double *q_values = malloc(num_pixels * sizeof(double));
   if (!w_values || !q_values) {
     free(result);
     free(w_values);
@@ -167,7 +173,7 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // First pass: compute w and q values and find maximum for normalization
-  for (uint32_t i = 0; i < width * height; i++) {
+  for (size_t i = 0; i < num_pixels; i++) {
     double det_A =
       Axx_smooth[i] * Ayy_smooth[i] - Axy_smooth[i] * Axy_smooth[i];
     double trace_A = Axx_smooth[i] + Ayy_smooth[i];
@@ -191,7 +197,7 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Second pass: normalize and convert to bytes
-  for (uint32_t i = 0; i < width * height; i++) {
+  for (size_t i = 0; i < num_pixels; i++) {
     uint8_t w_byte = 0, q_byte = 0;
 
     if (max_w > 0.0) {
-- 
2.43.0


From d61b1c6f971ccf2ae49d760904e7237c9ecfc7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:16 +0000
Subject: [PATCH 20/56] fix: apply morphological operations with very large
 radii

dx * dx + dy * dy and the loop counters overflowed. A disk that covers the
whole image gives the same result as any larger one.
---
 src/binary_closing_disk.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/binary_closing_disk.c b/src/binary_closing_disk.c
index 5e2fcbd..fbf9d4d 100644
--- a/src/binary_closing_disk.c
+++ b/src/binary_closing_disk.c
@@ -29,6 +29,12 @@ uint8_t *fcv_binary_dilation_disk(
   }
   size_t num_pixels = (size_t)width * (size_t)height;
 
+  // A disk of this radius always covers the whole image
+  int64_t covering_radius = (int64_t)width + height;
+  if (radius > covering_radius) {
+    radius = covering_radius;
+  }
+
   uint8_t *result = malloc(num_pixels);
   if (!result) {
     return NULL;
@@ -40,7 +46,7 @@ uint8_t *fcv_binary_dilation_disk(
   // For each pixel in the image
   for (int32_t y = 0; y < height; y++) {
     for (int32_t x = 0; x < width; x++) {
-      int32_t idx = y * width + x;
+      size_t idx = (size_t)y * width + x;
 
       // If current pixel is white (255), dilate it
       if (image_data[idx] == 255) {
@@ -50,13 +56,13 @@ uint8_t *fcv_binary_dilation_disk(
             // Check if point32_t is within disk (use slightly larger radius for
             // better connectivity)
             double r_eff = radius + 0.5;
-            if (dx * dx + dy * dy <= r_eff * r_eff) {
+            if ((double)dx * dx + (double)dy * dy <= r_eff * r_eff) {
               int32_t ny = y + dy;
               int32_t nx = x + dx;
 
               // Check bounds
               if (ny >= 0 && ny < height && nx >= 0 && nx < width) {
-                int32_t nidx = ny * width + nx;
+                size_t nidx = (size_t)ny * width + nx;
                 result[nidx] = 255;
               }
             }
@@ -86,6 +92,12 @@ static uint8_t *binary_erosion_disk_internal(
   }
   size_t num_pixels = (size_t)width * (size_t)height;
 
+  // A disk of this radius always covers the whole image
+  int64_t covering_radius = (int64_t)width + height;
+  if (radius > covering_radius) {
+    radius = covering_radius;
+  }
+
   uint8_t *result = malloc(num_pixels);
   if (!result) {
     return NULL;
@@ -97,7 +109,7 @@ static uint8_t *binary_erosion_disk_internal(
   // For each pixel in the image
   for (int32_t y = 0; y < height; y++) {
     for (int32_t x = 0; x < width; x++) {
-      int32_t idx = y * width + x;
+      size_t idx = (size_t)y * width + x;
 
       // Check if structuring element fits entirely within white pixels
       bool can_erode = true;
@@ -107,7 +119,7 @@ static uint8_t *binary_erosion_disk_internal(
           // Check if point32_t is within disk (use slightly larger radius for
           // better connectivity)
           double r_eff = radius + 0.5;
-          if (dx * dx + dy * dy <= r_eff * r_eff) {
+          if ((double)dx * dx + (double)dy * dy <= r_eff * r_eff) {
             int32_t ny = y + dy;
             int32_t nx = x + dx;
 
@@ -120,7 +132,7 @@ static uint8_t *binary_erosion_disk_internal(
                 int32_t clamped_y =
                   ny < 0 ? 0 : (ny >= height ? height - 1 : ny);
                 int32_t clamped_x = nx < 0 ? 0 : (nx >= width ? width - 1 : nx);
-                neighbor_value = image_data[clamped_y * width + clamped_x];
+                neighbor_value = image_data[(size_t)clamped_y * width + clamped_x];
               }
               else {
                 // Default: treat out-of-bounds as black
@@ -128,7 +140,7 @@ static uint8_t *binary_erosion_disk_internal(
               }
             }
             else {
-              neighbor_value = image_data[ny * width + nx];
+              neighbor_value = image_data[(size_t)ny * width + nx];
             }
 
             if (neighbor_value != 255) {
-- 
2.43.0


From c46c167a484c1009a18ceb317528e8ddd60236dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:16 +0000
Subject: [PATCH 21/56] fix: scale histogram bars of large images

count * 200 overflowed 32 bit for more than 21 million equal values.
---
 src/histogram.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/histogram.c b/src/histogram.c
index 398f17c..60dce3f 100644
--- a/src/histogram.c
+++ b/src/histogram.c
@@ -149,7 +149,7 @@ uint8_t *fcv_generate_histogram(
   for (int x = 0; x < 256; x++) {
     if (is_grayscale) {
       // Draw white histogram for grayscale
-      uint32_t bar_height = (hist_gray[x] * hist_height) / max_count;
+      uint32_t bar_height = ((uint64_t)hist_gray[x] * hist_height) / max_count;
       for (uint32_t y = 0; y < bar_height; y++) {
         uint32_t output_x = x;
         uint32_t output_y = hist_height - 1 - y;
@@ -163,11 +163,11 @@ uint8_t *fcv_generate_histogram(
     }
     else {
       // Draw overlapping colored histograms for RGB
-      uint32_t bar_height_r = (hist_r[x] * hist_height) / max_count;
+      uint32_t bar_height_r = ((uint64_t)hist_r[x] * hist_height) / max_count;
       uint32_t bar_height_g =
-        (channels >= 3) ? (hist_g[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? ((uint64_t)hist_g[x] * hist_height) / max_count : 0;
       uint32_t bar_height_b =
-        (channels >= 3) ? (hist_b[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? ((uint64_t)hist_b[x] * hist_height) / max_count : 0;
 
       uint32_t max_bar_height = bar_height_r;
       if (bar_height_g > max_bar_height) {
-- 
2.43.0


From 6a75619227accc4a5bb1688ecac576c468b0c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:37 +0000
Subject: [PATCH 22/56] fix: refuse segmentation markers far outside of the
 image

Coordinates outside of the 32 bit range were cast with undefined results.
---
 src/watershed_segmentation.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/watershed_segmentation.c b/src/watershed_segmentation.c
index 5457a4f..09245fa 100644
--- a/src/watershed_segmentation.c
+++ b/src/watershed_segmentation.c
@@ -125,12 +125,10 @@ uint8_t *fcv_watershed_segmentation(
       return NULL;
     }
 
-    int32_t marker_x = (int32_t)markers[m].x;
-    int32_t marker_y = (int32_t)markers[m].y;
-
     // Check bounds - if any marker is invalid, fail the entire operation
-    if (marker_x < 0 || marker_x >= (int32_t)width || marker_y < 0 ||
-        marker_y >= (int32_t)height) {
+    // (Fractions are truncated, so anything above -1 is the first pixel.)
+    if (markers[m].x <= -1 || markers[m].x >= width || markers[m].y <= -1 ||
+        markers[m].y >= height) {
       return NULL;
     }
   }
-- 
2.43.0


From 32e2aa7310ed4564aee950f5fe331e1b46850dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:42 +0000
Subject: [PATCH 23/56] fix: color very large segmentations with 64 bit indices

---
 src/watershed_segmentation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/watershed_segmentation.c b/src/watershed_segmentation.c
index 09245fa..3323e7a 100644
--- a/src/watershed_segmentation.c
+++ b/src/watershed_segmentation.c
@@ -276,8 +276,8 @@ uint8_t *fcv_watershed_segmentation(
   };
 
   // Create output image
-  for (uint32_t i = 0; i < img_length_px; i++) {
-    uint32_t rgba_idx = i * 4;
+  for (size_t i = 0; i < img_length_px; i++) {
+    size_t rgba_idx = i * 4;
     int32_t label = labels[i];
 
     if (label == -1) {
-- 
2.43.0


From 576630283f58ed1e7a9cf02738c48f5cf7e433e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:32 +0000
Subject: [PATCH 24/56] fix: release the corner peaks after corner detection

---
 src/corner_detection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index ff61e14..69d77e4 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -602,6 +602,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)resized_image);
 #endif
 
+  free(peaks->points);
   free(peaks);
   return sorted_corners;
 }
-- 
2.43.0


From 234d5ea0097dfaaf90d27cb591a731efe378a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:55 +0000
Subject: [PATCH 25/56] fix: return the default corners when corner detection
 runs out of memory

Like for the first step, instead of ending the process of the caller or
using missing buffers. Also release the segmented image.
---
 src/corner_detection.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index 69d77e4..3f2758d 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -147,7 +147,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)grayscale_image);
   if (!resized_image) {
     fprintf(stderr, "Error: Failed to resize image\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -168,7 +168,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
 #endif
   if (!blurred_image) {
     fprintf(stderr, "Error: Failed to apply Gaussian blur\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // 4. Create elevation map with Sobel edge detection
@@ -177,7 +177,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)blurred_image);
   if (!elevation_map) {
     fprintf(stderr, "Error: Failed to create elevation map with Sobel\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // 5. Flatten elevation map at center to not get trapped in a local minimum
@@ -208,7 +208,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free(elevation_map);
   if (!bordered_elevation_map) {
     fprintf(stderr, "Error: Failed to add black border to elevation map\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -225,7 +225,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!markers) {
     fprintf(stderr, "Error: Failed to allocate memory for markers\n");
     free((void *)bordered_elevation_map);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
   // Set center as foreground marker and upper left corner as background marker
   // Adjust for the added border (border width = 1)
@@ -242,13 +242,17 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   );
   free((void *)bordered_elevation_map);
   free((void *)markers);
+  if (!segmented_image_wide) {
+    fprintf(stderr, "Error: Failed to segment image\n");
+    return default_corners;
+  }
 
   // Remove 1 pixel border from segmented image
   uint8_t *segmented_image = malloc(out_width * out_height * 4);
   if (!segmented_image) {
     fprintf(stderr, "Error: Failed to allocate memory for segmented image\n");
     free((void *)segmented_image_wide);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
   for (uint32_t y = 1; y < bordered_height - 1; y++) {
     memcpy(
@@ -257,6 +261,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
       out_width * 4
     );
   }
+  free((void *)segmented_image_wide);
 
 #ifdef DEBUG_LOGGING
   out_img.width = out_width;
@@ -271,7 +276,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (region_count != 2) {
     fprintf(stderr, "Error: Expected 2 regions, found %d\n", region_count);
     free((void *)segmented_image);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // Convert red pixel (marker 1 - foreground) to white
@@ -284,6 +289,10 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     "00FF00"  // green -> black
   );
   free((void *)segmented_image);
+  if (!segmented_binary) {
+    fprintf(stderr, "Error: Failed to convert segmented image to binary\n");
+    return default_corners;
+  }
 
 #ifdef DEBUG_LOGGING
   out_img.data = segmented_binary;
@@ -301,7 +310,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_binary);
   if (!segmented_closed) {
     fprintf(stderr, "Error: Failed to perform binary closing\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -319,7 +328,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_closed);
   if (!corner_response) {
     fprintf(stderr, "Error: Failed to compute corner response\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // Extract `w` channel (error ellipse size) for visualization
@@ -327,7 +336,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!w_channel) {
     fprintf(stderr, "Error: Failed to allocate memory for w channel\n");
     free((void *)corner_response);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   for (uint32_t i = 0; i < out_width * out_height; i++) {
@@ -381,7 +390,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)corner_response);
   if (!peaks) {
     fprintf(stderr, "Error: Failed to find corner peaks\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // First, sort all corners to get them in clockwise order
-- 
2.43.0


From 369456fe47f0362eb3c3fd734fb6d210011cb008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:55 +0000
Subject: [PATCH 26/56] fix: detect corners of images with less than 4 corner
 peaks

No peak caused a division by 0, 1 or 2 peaks were read uninitialised, and
with 3 peaks the completed 4th corner was written past the end of the buffer
and not used.
---
 src/corner_detection.c | 52 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index 3f2758d..86f5fad 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -393,9 +393,25 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     return default_corners;
   }
 
+  // A quadrilateral can't be completed from less than 3 corners
+  if (peaks->count < 3) {
+    fprintf(stderr, "Error: Expected at least 3 corners, found %u\n", peaks->count);
+    free(peaks->points);
+    free(peaks);
+    return default_corners;
+  }
+
   // First, sort all corners to get them in clockwise order
-  Point2D *sorted_result = malloc(peaks->count * sizeof(Point2D));
-  sort_corners(
+  // (A missing 4th corner is added)
+  uint32_t sorted_count = peaks->count > 4 ? peaks->count : 4;
+  Point2D *sorted_result = malloc(sorted_count * sizeof(Point2D));
+  if (!sorted_result) {
+    fprintf(stderr, "Error: Failed to allocate memory for sorted corners\n");
+    free(peaks->points);
+    free(peaks);
+    return default_corners;
+  }
+  Corners all_corners = sort_corners(
     width,
     height,
     out_width,
@@ -404,6 +420,14 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     peaks->count,
     sorted_result
   );
+  // Peaks are never at the edge of the image
+  if (all_corners.tl_x <= 0 && all_corners.tl_y <= 0) {
+    fprintf(stderr, "Error: Failed to sort corners\n");
+    free(sorted_result);
+    free(peaks->points);
+    free(peaks);
+    return default_corners;
+  }
 
   // Scale corners back to original image dimensions
   double scale_x = (double)width / out_width;
@@ -419,6 +443,15 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
       double angle_abs;
     } AngleIndex;
     AngleIndex *angle_indices = malloc(peaks->count * sizeof(AngleIndex));
+    if (!angles || !angle_indices) {
+      fprintf(stderr, "Error: Failed to allocate memory for angles\n");
+      free(angles);
+      free(angle_indices);
+      free(sorted_result);
+      free(peaks->points);
+      free(peaks);
+      return default_corners;
+    }
 
     for (uint32_t i = 0; i < peaks->count; i++) {
       // Get the three consecutive points for angle calculation
@@ -503,17 +536,16 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     free(angle_indices);
   }
   else {
-    // Use all available corners if we have 4 or fewer, already in clockwise
-    // order
+    // Use all 4 corners, already in clockwise order
     sorted_corners =
       (Corners){.tl_x = sorted_result[0].x * scale_x,
                 .tl_y = sorted_result[0].y * scale_y,
-                .tr_x = sorted_result[1 % peaks->count].x * scale_x,
-                .tr_y = sorted_result[1 % peaks->count].y * scale_y,
-                .br_x = sorted_result[2 % peaks->count].x * scale_x,
-                .br_y = sorted_result[2 % peaks->count].y * scale_y,
-                .bl_x = sorted_result[3 % peaks->count].x * scale_x,
-                .bl_y = sorted_result[3 % peaks->count].y * scale_y};
+                .tr_x = sorted_result[1].x * scale_x,
+                .tr_y = sorted_result[1].y * scale_y,
+                .br_x = sorted_result[2].x * scale_x,
+                .br_y = sorted_result[2].y * scale_y,
+                .bl_x = sorted_result[3].x * scale_x,
+                .bl_y = sorted_result[3].y * scale_y};
   }
 
   free(sorted_result);
-- 
2.43.0


From d600a47a765ef710cfe7327dc9396ad81be58926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:55 +0000
Subject: [PATCH 27/56] fix: refuse a missing or empty image in corner
 detection

Instead of aborting the process or, without assertions, crashing.
---
 src/corner_detection.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index 86f5fad..f1d3d0c 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -110,9 +110,9 @@ void write_debug_img(Image img, const char *filename) {
  */
 Corners
 fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
-  assert(image != NULL);
-  assert(width > 0);
-  assert(height > 0);
+  if (!image || width <= 0 || height <= 0) {
+    return (Corners){0};
+  }
 
   Corners default_corners = {
     .tl_x = 0,
@@ -653,6 +653,10 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
  */
 Corners *
 fcv_detect_corners_ptr(const uint8_t *image, int32_t width, int32_t height) {
+  if (!image || width <= 0 || height <= 0) {
+    return NULL;
+  }
+
   Corners corners = fcv_detect_corners(image, width, height);
   Corners *result = malloc(sizeof(Corners));
   if (result == NULL) {
-- 
2.43.0


From 7d4b6d5fb6b5df4484401286eadca3d2f5c3ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:07 +0000
Subject: [PATCH 28/56] fix: always return an owned perspective transform
 matrix

The identity fallback was a static object, which callers can not tell from
an allocated one: The Haskell bindings freed it and crashed, and a calculated
identity matrix was leaked by the document extraction.
---
 src/extract_document.c     | 20 ++------------------
 src/perspectivetransform.c | 30 +++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/extract_document.c b/src/extract_document.c
index 5d4f982..1e1a967 100644
--- a/src/extract_document.c
+++ b/src/extract_document.c
@@ -56,15 +56,7 @@ uint8_t *fcv_extract_document(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free(transform_matrix);
 
   return result;
 }
@@ -151,15 +143,7 @@ uint8_t *fcv_extract_document_auto(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free(transform_matrix);
 
   return result;
 }
diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 5c4f496..a1bdc40 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -100,9 +100,21 @@ int32_t solve_linear_system(double A[8][8], double b[8], double x[8]) {
   return 1;
 }
 
+/**
+ * Helper function to copy a matrix to newly allocated memory
+ */
+static Matrix3x3 *copy_matrix(Matrix3x3 const *matrix) {
+  Matrix3x3 *copy = malloc(sizeof(Matrix3x3));
+  if (copy) {
+    *copy = *matrix;
+  }
+  return copy;
+}
+
 /**
  * Calculate the perspective transformation matrix
  * from the source and destination corner coordinates.
+ * The caller must free the returned matrix.
  */
 Matrix3x3 *fcv_calculate_perspective_transform(
   Corners *src_corners,
@@ -114,11 +126,11 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   double x[8] = {0};
 
   // Identity matrix as fallback
-  static Matrix3x3 identity = {1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0};
+  const Matrix3x3 identity = {1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0};
 
   if (!src_corners || !dst_corners) {
     log("Error: NULL pointer passed to calculate_perspective_transform\n");
-    return &identity;
+    return copy_matrix(&identity);
   }
 
 #ifdef DEBUG_LOGGING
@@ -159,7 +171,7 @@ Matrix3x3 *fcv_calculate_perspective_transform(
       isnan(dst_corners->br_x) || isnan(dst_corners->br_y) ||
       isnan(dst_corners->bl_x) || isnan(dst_corners->bl_y)) {
     log("Error: Invalid coordinates (NaN) detected\n");
-    return &identity;
+    return copy_matrix(&identity);
   }
 
   // Set up the system of equations
@@ -197,7 +209,7 @@ Matrix3x3 *fcv_calculate_perspective_transform(
     // Validate extracted coordinates
     if (isinf(srcX) || isinf(srcY) || isinf(dstX) || isinf(dstY)) {
       log("Error: Invalid coordinates (Inf) detected\n");
-      return &identity;
+      return copy_matrix(&identity);
     }
 
     // First four equations for x coordinates
@@ -220,18 +232,21 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   log("Solve the system of equations …\n");
   if (!solve_linear_system(A, b, x)) {
     log("Failed to solve system, returning identity matrix\n");
-    return &identity;
+    return copy_matrix(&identity);
   }
 
   // Validate solution
   for (int32_t i = 0; i < 8; i++) {
     if (isnan(x[i]) || isinf(x[i]) || fabs(x[i]) > 1e6) {
       log("Error: Invalid solution values detected\n");
-      return &identity;
+      return copy_matrix(&identity);
     }
   }
 
   Matrix3x3 *result = malloc(sizeof(Matrix3x3));
+  if (!result) { // Memory allocation failed
+    return NULL;
+  }
   *result = (Matrix3x3){x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], 1.0};
 
 #ifdef DEBUG_LOGGING
@@ -249,7 +264,8 @@ Matrix3x3 *fcv_calculate_perspective_transform(
       isinf(result->m10) || isinf(result->m11) || isinf(result->m12) ||
       isinf(result->m20) || isinf(result->m21) || isinf(result->m22)) {
     log("Error: Invalid values in result matrix\n");
-    return &identity;
+    free(result);
+    return copy_matrix(&identity);
   }
 
   return result;
-- 
2.43.0


From cb8a6849ed0a0281fd4c900deebd752be7ae4cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:07 +0000
Subject: [PATCH 29/56] fix: apply matrices which map outside of the 32 bit
 range

Huge, infinite and NaN positions were cast to int with undefined results.
---
 src/perspectivetransform.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index a1bdc40..0460c72 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -327,6 +327,11 @@ uint8_t *fcv_apply_matrix_3x3(
       double srcX = (tmat->m00 * out_x + tmat->m01 * out_y + tmat->m02) / w;
       double srcY = (tmat->m10 * out_x + tmat->m11 * out_y + tmat->m12) / w;
 
+      // Skip positions outside of the source image (or undefined ones)
+      if (!(srcX >= 0 && srcX < in_width && srcY >= 0 && srcY < in_height)) {
+        continue;
+      }
+
       // Convert source coordinates to integers
       int32_t x0 = (int32_t)floor(srcX);
       int32_t y0 = (int32_t)floor(srcY);
-- 
2.43.0


From 878b4cefdaf6fe13f67b504d6f047a2e458a61d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:07 +0000
Subject: [PATCH 30/56] fix: apply matrices to very large images with 64 bit
 indices

---
 src/perspectivetransform.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 0460c72..1a9d20e 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -357,13 +357,13 @@ uint8_t *fcv_apply_matrix_3x3(
           dy = 0.0;
         }
 
-        uint8_t *p00 = &in_data[(y0 * in_width + x0) * 4];
-        uint8_t *p01 = &in_data[(y0 * in_width + x1c) * 4];
-        uint8_t *p10 = &in_data[(y1c * in_width + x0) * 4];
-        uint8_t *p11 = &in_data[(y1c * in_width + x1c) * 4];
+        uint8_t *p00 = &in_data[((size_t)y0 * in_width + x0) * 4];
+        uint8_t *p01 = &in_data[((size_t)y0 * in_width + x1c) * 4];
+        uint8_t *p10 = &in_data[((size_t)y1c * in_width + x0) * 4];
+        uint8_t *p11 = &in_data[((size_t)y1c * in_width + x1c) * 4];
 
         for (int32_t c = 0; c < 4; ++c) {
-          out_data[(out_y * out_width + out_x) * 4 + c] =
+          out_data[((size_t)out_y * out_width + out_x) * 4 + c] =
             (uint8_t)(p00[c] * (1 - dx) * (1 - dy) + p01[c] * dx * (1 - dy) +
                       p10[c] * (1 - dx) * dy + p11[c] * dx * dy);
         }
-- 
2.43.0


From f08540054a50242664b144e135b369dbb5729004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:07 +0000
Subject: [PATCH 31/56] fix: do not modify the caller's matrix

The translation added to a flip matrix depends on the image size, and was
reused for the next image.
---
 src/perspectivetransform.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 1a9d20e..b3b5976 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -302,11 +302,12 @@ uint8_t *fcv_apply_matrix_3x3(
     return NULL;
   }
 
-  // Patch flip matrix if needed
+  // Patch flip matrix if needed (without changing the caller's matrix)
+  Matrix3x3 mat = *tmat;
   if (fabs(tmat->m00 + 1.0) < 1e-9 && fabs(tmat->m11 + 1.0) < 1e-9 &&
       tmat->m02 == 0.0 && tmat->m12 == 0.0) {
-    tmat->m02 = in_width - 1;
-    tmat->m12 = in_height - 1;
+    mat.m02 = in_width - 1;
+    mat.m12 = in_height - 1;
   }
 
   uint8_t *out_data = calloc(out_pixels * 4, sizeof(uint8_t));
@@ -319,13 +320,13 @@ uint8_t *fcv_apply_matrix_3x3(
   for (int32_t out_y = 0; out_y < out_height; ++out_y) {
     for (int32_t out_x = 0; out_x < out_width; ++out_x) {
       // Apply the inverse transformation to find the corresponding source pixel
-      double w = tmat->m20 * out_x + tmat->m21 * out_y + tmat->m22;
+      double w = mat.m20 * out_x + mat.m21 * out_y + mat.m22;
       if (fabs(w) < 1e-10) {
         continue; // Skip if w is too close to zero
       }
 
-      double srcX = (tmat->m00 * out_x + tmat->m01 * out_y + tmat->m02) / w;
-      double srcY = (tmat->m10 * out_x + tmat->m11 * out_y + tmat->m12) / w;
+      double srcX = (mat.m00 * out_x + mat.m01 * out_y + mat.m02) / w;
+      double srcY = (mat.m10 * out_x + mat.m11 * out_y + mat.m12) / w;
 
       // Skip positions outside of the source image (or undefined ones)
       if (!(srcX >= 0 && srcX < in_width && srcY >= 0 && srcY < in_height)) {
-- 
2.43.0


From fa3da072a2e9bc946636081fff87f1da51db99e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 32/56] fix: report output images which could not be written
 completely

---
 src/cli.c | 65 ++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 41a3164..b77454a 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1507,6 +1507,62 @@ uint8_t *execute_pipeline(
   return current_data;
 }
 
+typedef struct {
+  FILE *file;
+  int32_t failed;
+} FileWriter;
+
+static void write_to_file(void *context, void *data, int size) {
+  FileWriter *writer = context;
+  if (size > 0 &&
+      fwrite(data, 1, (size_t)size, writer->file) != (size_t)size) {
+    writer->failed = 1;
+  }
+}
+
+/**
+ * Encode the RGBA image and write it to the file.
+ * Returns 1 only if all of the encoded data was written.
+ */
+static int32_t save_image(
+  const char *output_path,
+  int32_t as_jpeg,
+  int32_t width,
+  int32_t height,
+  const uint8_t *data
+) {
+  FileWriter writer = {fopen(output_path, "wb"), 0};
+  if (!writer.file) {
+    return 0;
+  }
+
+  int32_t encoded =
+    as_jpeg
+      ? stbi_write_jpg_to_func(
+          write_to_file,
+          &writer,
+          width,
+          height,
+          4,
+          data,
+          90
+        )
+      : stbi_write_png_to_func(
+          write_to_file,
+          &writer,
+          width,
+          height,
+          4,
+          data,
+          width * 4
+        );
+
+  if (fclose(writer.file) != 0) {
+    writer.failed = 1;
+  }
+  return encoded && !writer.failed;
+}
+
 int32_t main(int32_t argc, char *argv[]) {
   if (argc < 3) {
     print32_t_usage(argv[0]);
@@ -1626,8 +1682,7 @@ int32_t main(int32_t argc, char *argv[]) {
     int32_t write_result;
     const char *ext = strrchr(output_path, '.');
     if (ext && strcmp(ext, ".png") == 0) {
-      write_result =
-        stbi_write_png(output_path, width, height, 4, result_data, width * 4);
+      write_result = save_image(output_path, 0, width, height, result_data);
     }
     else if (ext && (strcmp(ext, ".jpg") == 0 || strcmp(ext, ".jpeg") == 0)) {
       if (pipeline_has_binarization(pipeline)) {
@@ -1638,12 +1693,10 @@ int32_t main(int32_t argc, char *argv[]) {
           "Please use PNG format instead.\n"
         );
       }
-      write_result =
-        stbi_write_jpg(output_path, width, height, 4, result_data, 90);
+      write_result = save_image(output_path, 1, width, height, result_data);
     }
     else {
-      write_result =
-        stbi_write_png(output_path, width, height, 4, result_data, width * 4);
+      write_result = save_image(output_path, 0, width, height, result_data);
     }
 
     if (!write_result) {
-- 
2.43.0


From 14dbd90bf210d74634b01cf9508e7d39c3a74803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 33/56] fix: do not cut off long operation parameters

---
 src/cli.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index b77454a..ca01908 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -38,7 +38,7 @@ typedef struct {
   double param2;
   double param3;
   double param4;
-  char param_str[64]; // For string parameters like "50%" or "200x300"
+  char *param_str; // For string parameters like "50%" or "200x300"
   int32_t has_param;
   int32_t has_param2;
   int32_t has_param3;
@@ -156,6 +156,9 @@ Pipeline *create_pipeline(void) {
 
 void free_pipeline(Pipeline *p) {
   if (p) {
+    for (int32_t i = 0; i < p->count; i++) {
+      free(p->ops[i].param_str);
+    }
     free(p->ops);
     free(p);
   }
@@ -206,16 +209,11 @@ void add_operation(
   p->ops[p->count].param4 = param4;
   p->ops[p->count].has_param4 = has_param4;
 
-  if (has_string_param && param_str) {
-    strncpy(
-      p->ops[p->count].param_str,
-      param_str,
-      sizeof(p->ops[p->count].param_str) - 1
-    );
-    p->ops[p->count].param_str[sizeof(p->ops[p->count].param_str) - 1] = '\0';
-  }
-  else {
-    p->ops[p->count].param_str[0] = '\0';
+  p->ops[p->count].param_str =
+    strdup(has_string_param && param_str ? param_str : "");
+  if (!p->ops[p->count].param_str) {
+    fprintf(stderr, "Error: out of memory\n");
+    exit(1);
   }
   p->ops[p->count].has_string_param = has_string_param;
 
-- 
2.43.0


From bcd263697112fe35bd2511e940f6edfff1d713d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 34/56] fix: refuse rotation angles which are no multiple of 90

---
 src/cli.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index ca01908..d1e9bc8 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1217,9 +1217,11 @@ uint8_t *apply_operation(
       fprintf(stderr, "Error: rotate requires an angle parameter\n");
       return NULL;
     }
-    int angle = (int)param;
-    // Normalize angle to 0-359 range
-    angle = ((angle % 360) + 360) % 360;
+    // Normalize angle to the range 0 to 360 (exclusive)
+    double angle = fmod(param, 360.0);
+    if (angle < 0) {
+      angle += 360.0;
+    }
     if (angle != 0 && angle != 90 && angle != 180 && angle != 270) {
       fprintf(stderr, "Error: rotate angle must be a multiple of 90\n");
       return NULL;
-- 
2.43.0


From cbe086f2e85270faa58035ccef12d6a57af9ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 35/56] fix: convert large radii and border widths without
 overflow

---
 src/cli.c | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index d1e9bc8..edb7344 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -244,6 +244,20 @@ char *skip_whitespace(char *str) {
   return str;
 }
 
+/**
+ * Convert a radius to an integer, truncating towards zero.
+ * Radii outside of the 32 bit range are clamped and NaN becomes 0.
+ */
+static int32_t radius_to_int32(double radius) {
+  if (radius >= (double)INT32_MAX) {
+    return INT32_MAX;
+  }
+  if (radius <= (double)INT32_MIN) {
+    return INT32_MIN;
+  }
+  return isnan(radius) ? 0 : (int32_t)radius;
+}
+
 /**
  * Parse geometry string (e.g., "50x50+10+20")
  * Returns 1 on success, 0 on failure
@@ -688,7 +702,7 @@ int32_t parse_pipeline(
           char *color = trim_whitespace(params_str);
           double border_width = atof(trim_whitespace(space2 + 1));
 
-          if (border_width > 0) {
+          if (border_width > 0 && border_width <= INT32_MAX) {
             add_operation(
               pipeline,
               piece,
@@ -1333,8 +1347,12 @@ uint8_t *apply_operation(
       return NULL;
     }
 
-    uint8_t *eroded =
-      fcv_binary_erosion_disk(grayscale_data, *width, *height, (int32_t)param);
+    uint8_t *eroded = fcv_binary_erosion_disk(
+      grayscale_data,
+      *width,
+      *height,
+      radius_to_int32(param)
+    );
     free(grayscale_data);
 
     if (!eroded) {
@@ -1359,8 +1377,12 @@ uint8_t *apply_operation(
       return NULL;
     }
 
-    uint8_t *dilated =
-      fcv_binary_dilation_disk(grayscale_data, *width, *height, (int32_t)param);
+    uint8_t *dilated = fcv_binary_dilation_disk(
+      grayscale_data,
+      *width,
+      *height,
+      radius_to_int32(param)
+    );
     free(grayscale_data);
 
     if (!dilated) {
@@ -1385,8 +1407,12 @@ uint8_t *apply_operation(
       return NULL;
     }
 
-    uint8_t *closed =
-      fcv_binary_closing_disk(grayscale_data, *width, *height, (int32_t)param);
+    uint8_t *closed = fcv_binary_closing_disk(
+      grayscale_data,
+      *width,
+      *height,
+      radius_to_int32(param)
+    );
     free(grayscale_data);
 
     if (!closed) {
@@ -1411,8 +1437,12 @@ uint8_t *apply_operation(
       return NULL;
     }
 
-    uint8_t *opened =
-      fcv_binary_opening_disk(grayscale_data, *width, *height, (int32_t)param);
+    uint8_t *opened = fcv_binary_opening_disk(
+      grayscale_data,
+      *width,
+      *height,
+      radius_to_int32(param)
+    );
     free(grayscale_data);
 
     if (!opened) {
-- 
2.43.0


From 71d1d64cf3c40b9bcc059f42a05f4c00a649db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 36/56] fix: copy large images completely before drawing on
 them

---
 src/cli.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index edb7344..7a86971 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -942,9 +942,10 @@ uint8_t *apply_operation(
     printf("  }\n");
 
     // Return a copy of the input data without modification
-    uint8_t *result = malloc(*width * *height * 4);
+    size_t img_length_byte = (size_t)*width * (size_t)*height * 4;
+    uint8_t *result = malloc(img_length_byte);
     if (result) {
-      memcpy(result, input_data, *width * *height * 4);
+      memcpy(result, input_data, img_length_byte);
     }
     return result;
   }
@@ -957,7 +958,7 @@ uint8_t *apply_operation(
     printf("    Bottom-left:  (%.0f, %.0f)\n", cs.bl_x, cs.bl_y);
 
     // Create a copy of the input data and draw disks at detected corners
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)*width * (size_t)*height * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       return NULL;
@@ -1002,7 +1003,7 @@ uint8_t *apply_operation(
     double center_y = param3;
     double radius = param;
 
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)*width * (size_t)*height * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       free(param_copy);
@@ -1036,7 +1037,7 @@ uint8_t *apply_operation(
     double center_y = param3;
     double radius = param;
 
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)*width * (size_t)*height * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       free(param_copy);
-- 
2.43.0


From 6fa493a284bba14c665ac99b47e9febd2ed95e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 37/56] fix: save images with an upper case JPEG extension as
 JPEG

---
 src/cli.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index 7a86971..98d941a 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1715,7 +1715,8 @@ int32_t main(int32_t argc, char *argv[]) {
     if (ext && strcmp(ext, ".png") == 0) {
       write_result = save_image(output_path, 0, width, height, result_data);
     }
-    else if (ext && (strcmp(ext, ".jpg") == 0 || strcmp(ext, ".jpeg") == 0)) {
+    else if (ext && (strcmp(ext, ".jpg") == 0 || strcmp(ext, ".jpeg") == 0 ||
+                     strcmp(ext, ".JPG") == 0 || strcmp(ext, ".JPEG") == 0)) {
       if (pipeline_has_binarization(pipeline)) {
         fprintf(
           stderr,
-- 
2.43.0


From 544b77baa580f3da2fbec3055297320693e29037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:45 +0000
Subject: [PATCH 38/56] fix: refuse to save images which are too large for the
 file format

---
 src/cli.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index 98d941a..671702e 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1562,6 +1562,14 @@ static int32_t save_image(
   int32_t height,
   const uint8_t *data
 ) {
+  // Refuse sizes which can't be represented in the file or by the encoder
+  if (width <= 0 || height <= 0 ||
+      ((int64_t)width * 4 + 1) * height > INT32_MAX ||
+      (as_jpeg && (width > 65535 || height > 65535))) {
+    fprintf(stderr, "Error: Image is too large for the output format\n");
+    return 0;
+  }
+
   FileWriter writer = {fopen(output_path, "wb"), 0};
   if (!writer.file) {
     return 0;
-- 
2.43.0


From 7ee9ed4f0c9f07726b725e612f48e228b2d72d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:45 +0000
Subject: [PATCH 39/56] fix: refuse negative document sizes

---
 src/cli.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 671702e..4176bea 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -649,8 +649,8 @@ int32_t parse_pipeline(
         char *x_pos = strchr(params_copy, 'x');
         if (x_pos) {
           *x_pos = '\0';
-          uint32_t out_width = (uint32_t)atoi(trim_whitespace(params_copy));
-          uint32_t out_height = (uint32_t)atoi(trim_whitespace(x_pos + 1));
+          int32_t out_width = atoi(trim_whitespace(params_copy));
+          int32_t out_height = atoi(trim_whitespace(x_pos + 1));
 
           if (out_width > 0 && out_height > 0) {
             add_operation(
-- 
2.43.0


From 6f7be4c27d636e0da4ee76b84086d903377870bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:45 +0000
Subject: [PATCH 40/56] fix: refuse intermediate images with sides beyond the
 32 bit range

---
 src/cli.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index 4176bea..edd40d6 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1519,6 +1519,12 @@ uint8_t *execute_pipeline(
       *height
     );
 
+    if (result && (*width <= 0 || *height <= 0)) {
+      fprintf(stderr, "Error: Image is too large\n");
+      free(result);
+      result = NULL;
+    }
+
     if (!result) {
       if (temp_data && temp_data != input_data) {
         free(temp_data);
-- 
2.43.0


From a45678314ac221afafa38355e96b71049be58eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 41/56] fix: accept quoted watershed markers

---
 src/cli.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index edd40d6..8d362bb 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1090,6 +1090,10 @@ uint8_t *apply_operation(
     int32_t marker_idx = 0;
 
     while (token && marker_idx < num_markers) {
+      // Markers can be quoted as shown in the usage examples
+      while (*token == '\'' || *token == '"') {
+        token++;
+      }
       char *x_pos = strchr(token, 'x');
       if (x_pos) {
         *x_pos = '\0';
-- 
2.43.0


From 0090999b55c7585beb6104a97aacd914f531d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:13 +0000
Subject: [PATCH 42/56] fix: report an EXIF orientation which could not be
 applied

---
 src/cli.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 8d362bb..c4daa0c 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1699,10 +1699,14 @@ int32_t main(int32_t argc, char *argv[]) {
         break;
       }
 
-      if (rotated_data) {
+      if (!rotated_data) {
+        fprintf(stderr, "Error: Could not apply EXIF orientation\n");
         stbi_image_free(image_data);
-        image_data = rotated_data;
+        free_pipeline(pipeline);
+        return 1;
       }
+      stbi_image_free(image_data);
+      image_data = rotated_data;
     }
   }
 
-- 
2.43.0


From bb918d0216151937e6c6a15c31d6df58f8c6d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:40 +0000
Subject: [PATCH 43/56] fix: return a Foerstner corner vector with the size of
 the result

---
 bindings/flatcv-hs/src/FlatCV.hs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/flatcv-hs/src/FlatCV.hs b/bindings/flatcv-hs/src/FlatCV.hs
index c62d8d1..bfe91fc 100644
--- a/bindings/flatcv-hs/src/FlatCV.hs
+++ b/bindings/flatcv-hs/src/FlatCV.hs
@@ -351,9 +351,10 @@ sobelEdgeDetection width height channels input =
   withImageData input (\p -> Raw.fcv_sobel_edge_detection width height channels p) (width * height * channels)
 
 -- | Foerstner corner detection with given sigma
+-- (output has 2 channels: corner strength and roundness)
 foerstnerCorner :: Word32 -> Word32 -> Double -> V.Vector Word8 -> IO (V.Vector Word8)
 foerstnerCorner width height sigma input =
-  withImageData input (\p -> Raw.fcv_foerstner_corner width height p sigma) (width * height * 4)
+  withImageData input (\p -> Raw.fcv_foerstner_corner width height p sigma) (width * height * 2)
 
 --------------------------------------------------------------------------------
 -- Morphological operations
-- 
2.43.0


From 8561a50ced32976e131a8d07de2240ae4eb40940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:30 +0000
Subject: [PATCH 44/56] fix: release the watershed markers when the
 segmentation fails

---
 bindings/flatcv-hs/src/FlatCV.hs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/bindings/flatcv-hs/src/FlatCV.hs b/bindings/flatcv-hs/src/FlatCV.hs
index bfe91fc..23e9917 100644
--- a/bindings/flatcv-hs/src/FlatCV.hs
+++ b/bindings/flatcv-hs/src/FlatCV.hs
@@ -148,8 +148,8 @@ import qualified Data.Vector.Storable.Mutable as MV
 import Foreign.C.String (withCString)
 import Foreign.C.Types (CUChar)
 import Foreign.ForeignPtr (newForeignPtr, FinalizerPtr, castForeignPtr)
-import Foreign.Marshal.Alloc (alloca, free, mallocBytes)
-import Foreign.Marshal.Array (pokeArray)
+import Foreign.Marshal.Alloc (alloca, free)
+import Foreign.Marshal.Array (withArrayLen)
 import Foreign.Ptr (Ptr, castPtr, nullPtr)
 import Foreign.Storable (Storable(..), peek, poke, sizeOf, alignment)
 import Text.Printf (printf)
@@ -599,16 +599,11 @@ generateHistogram width height channels input = do
 
 -- | Watershed segmentation with markers
 watershedSegmentation :: Word32 -> Word32 -> [Point2D] -> Bool -> V.Vector Word8 -> IO (V.Vector Word8)
-watershedSegmentation width height markers createBoundaries input = do
-  let numMarkers = fromIntegral $ length markers
-      markerSize = numMarkers * sizeOf (undefined :: Point2D)
-  markersPtr <- mallocBytes markerSize
-  pokeArray markersPtr markers
-  result <- withImageData input
-    (\p -> Raw.fcv_watershed_segmentation width height p (castPtr markersPtr) (fromIntegral numMarkers) createBoundaries)
-    (width * height * 4)
-  free markersPtr
-  return result
+watershedSegmentation width height markers createBoundaries input =
+  withArrayLen markers $ \numMarkers markersPtr ->
+    withImageData input
+      (\p -> Raw.fcv_watershed_segmentation width height p (castPtr markersPtr) (fromIntegral numMarkers) createBoundaries)
+      (width * height * 4)
 
 --------------------------------------------------------------------------------
 -- EXIF
-- 
2.43.0


From 3b002c82a041cf2ad5db9d4e5a3c51ca381a9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:27 +0000
Subject: [PATCH 45/56] fix: segment images with more markers than pixels

---
 src/watershed_segmentation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/watershed_segmentation.c b/src/watershed_segmentation.c
index 3323e7a..4df3491 100644
--- a/src/watershed_segmentation.c
+++ b/src/watershed_segmentation.c
@@ -175,14 +175,14 @@ uint8_t *fcv_watershed_segmentation(
     return NULL;
   }
 
-  // Initialize markers and add to queue
+  // Initialize markers
+  // (They can't be added to the queue, as there can be more of them than pixels)
   for (uint32_t m = 0; m < num_markers; m++) {
     int32_t marker_x = (int32_t)markers[m].x;
     int32_t marker_y = (int32_t)markers[m].y;
     int32_t idx = marker_y * width + marker_x;
     int32_t label = (int32_t)m; // Label starts from 0
     labels[idx] = label;
-    enqueue(queue, marker_x, marker_y, label);
   }
 
   // Level-wise watershed algorithm - process pixels in elevation order
-- 
2.43.0


From 103276e281981b3439d7274acbb4a87e5622f908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:27 +0000
Subject: [PATCH 46/56] fix: refuse to segment images beyond 32 bit indices

---
 src/watershed_segmentation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/watershed_segmentation.c b/src/watershed_segmentation.c
index 4df3491..e9d379d 100644
--- a/src/watershed_segmentation.c
+++ b/src/watershed_segmentation.c
@@ -139,6 +139,11 @@ uint8_t *fcv_watershed_segmentation(
   }
   size_t img_length_px = (size_t)width * height;
 
+  // Labels and queue use 32 bit indices
+  if (img_length_px > INT32_MAX) {
+    return NULL;
+  }
+
   // Check for overflow in output_data allocation (pixels * 4)
   if (img_length_px > SIZE_MAX / 4) {
     return NULL;
-- 
2.43.0


From ff0ab0a0f0a9a2f912d60995f9af155961b68eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:27 +0000
Subject: [PATCH 47/56] fix: count more than 2^32 equal pixels in histograms

---
 src/histogram.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/histogram.c b/src/histogram.c
index 60dce3f..ac225c7 100644
--- a/src/histogram.c
+++ b/src/histogram.c
@@ -73,10 +73,10 @@ uint8_t *fcv_generate_histogram(
   }
 
   // Count histograms for each channel
-  uint32_t hist_r[256] = {0};
-  uint32_t hist_g[256] = {0};
-  uint32_t hist_b[256] = {0};
-  uint32_t hist_gray[256] = {0};
+  uint64_t hist_r[256] = {0};
+  uint64_t hist_g[256] = {0};
+  uint64_t hist_b[256] = {0};
+  uint64_t hist_gray[256] = {0};
 
   bool is_grayscale = (channels == 1);
   if (channels == 4) {
@@ -117,7 +117,7 @@ uint8_t *fcv_generate_histogram(
   }
 
   // Find maximum count for scaling
-  uint32_t max_count = 0;
+  uint64_t max_count = 0;
   if (is_grayscale) {
     for (int i = 0; i < 256; i++) {
       if (hist_gray[i] > max_count) {
@@ -149,7 +149,7 @@ uint8_t *fcv_generate_histogram(
   for (int x = 0; x < 256; x++) {
     if (is_grayscale) {
       // Draw white histogram for grayscale
-      uint32_t bar_height = ((uint64_t)hist_gray[x] * hist_height) / max_count;
+      uint32_t bar_height = (hist_gray[x] * hist_height) / max_count;
       for (uint32_t y = 0; y < bar_height; y++) {
         uint32_t output_x = x;
         uint32_t output_y = hist_height - 1 - y;
@@ -163,11 +163,11 @@ uint8_t *fcv_generate_histogram(
     }
     else {
       // Draw overlapping colored histograms for RGB
-      uint32_t bar_height_r = ((uint64_t)hist_r[x] * hist_height) / max_count;
+      uint32_t bar_height_r = (hist_r[x] * hist_height) / max_count;
       uint32_t bar_height_g =
-        (channels >= 3) ? ((uint64_t)hist_g[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? (hist_g[x] * hist_height) / max_count : 0;
       uint32_t bar_height_b =
-        (channels >= 3) ? ((uint64_t)hist_b[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? (hist_b[x] * hist_height) / max_count : 0;
 
       uint32_t max_bar_height = bar_height_r;
       if (bar_height_g > max_bar_height) {
-- 
2.43.0


From 4782bb2dd17d0f93eee69124c0f1386a88095317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:15 +0000
Subject: [PATCH 48/56] fix: search corner peaks in very large images with 64
 bit indices

---
 src/corner_peaks.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/corner_peaks.c b/src/corner_peaks.c
index 1e2c43c..a095703 100644
--- a/src/corner_peaks.c
+++ b/src/corner_peaks.c
@@ -26,7 +26,7 @@ static bool is_local_maximum(
     return false;
   }
 
-  uint32_t center_idx = (y * width + x) * 2 + channel;
+  size_t center_idx = ((size_t)y * width + x) * 2 + channel;
   uint8_t center_val = data[center_idx];
 
   if (center_val == 0) {
@@ -39,7 +39,8 @@ static bool is_local_maximum(
         continue;
       }
 
-      uint32_t neighbor_idx = ((y + dy) * width + (x + dx)) * 2 + channel;
+      size_t neighbor_idx =
+        ((size_t)(y + dy) * width + (x + dx)) * 2 + channel;
       if (data[neighbor_idx] > center_val) {
         return false;
       }
@@ -104,7 +105,7 @@ CornerPeaks *fcv_corner_peaks(
 
   for (uint32_t y = 1; y < height - 1; y++) {
     for (uint32_t x = 1; x < width - 1; x++) {
-      uint32_t idx = (y * width + x) * 2;
+      size_t idx = ((size_t)y * width + x) * 2;
 
       // Convert normalized values (0-255) back to 0-1 range
       double w = data[idx] / 255.0;     // accuracy measure
@@ -146,10 +147,10 @@ CornerPeaks *fcv_corner_peaks(
       }
 
       if (euclidean_distance(candidates[i], candidates[j]) < min_distance) {
-        uint32_t i_idx =
-          ((uint32_t)candidates[i].y * width + (uint32_t)candidates[i].x) * 2;
-        uint32_t j_idx =
-          ((uint32_t)candidates[j].y * width + (uint32_t)candidates[j].x) * 2;
+        size_t i_idx =
+          ((size_t)candidates[i].y * width + (size_t)candidates[i].x) * 2;
+        size_t j_idx =
+          ((size_t)candidates[j].y * width + (size_t)candidates[j].x) * 2;
 
         if (data[i_idx] >= data[j_idx]) {
           rejected[j] = true;
-- 
2.43.0


From c531ff0682095a747fce93265921933519d6629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:16 +0000
Subject: [PATCH 49/56] fix: sample the right pixels when only one side is
 shrunk

---
 src/conversion.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index 074e149..a132424 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -672,8 +672,10 @@ uint8_t *fcv_resize(
       size_t out_idx = ((size_t)out_y * *out_width + out_x) * 4;
 
       if (resize_x < 1.0 || resize_y < 1.0) {
-        double src_x = (out_x + 0.5) / resize_x - 0.5;
-        double src_y = (out_y + 0.5) / resize_y - 0.5;
+        // A direction which isn't shrunk must not be shifted,
+        // as the window could otherwise lie outside of the image
+        double src_x = (out_x + 0.5) / resize_x - (resize_x < 1.0 ? 0.5 : 0.0);
+        double src_y = (out_y + 0.5) / resize_y - (resize_y < 1.0 ? 0.5 : 0.0);
 
         double filter_size_x = 1.0 / resize_x;
         double filter_size_y = 1.0 / resize_y;
-- 
2.43.0


From ce428e67aae3b7e8e361dd8ecbe7c12a863f252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:09 +0000
Subject: [PATCH 50/56] fix: accept a missing image in the global threshold

---
 src/conversion.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conversion.c b/src/conversion.c
index a132424..4134b40 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -205,6 +205,10 @@ void fcv_apply_global_threshold(
   uint8_t *data,
   uint8_t threshold
 ) {
+  if (!data) {
+    return;
+  }
+
   for (uint32_t i = 0; i < img_length_px; i++) {
     data[i] = data[i] > threshold ? 255 : 0;
   }
-- 
2.43.0


From 03706348559fc9b4e2ccb933b2aff16a82f3d8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:39 +0000
Subject: [PATCH 51/56] fix: report a lack of memory when copying operation
 parameters

---
 src/cli.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index c4daa0c..81418d6 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -855,6 +855,9 @@ uint8_t *apply_operation(
     if (has_string_param) {
       // Parse new resize formats: 50%, 50%x80%, 200x300
       char *param_copy = strdup(param_str);
+      if (!param_copy) {
+        return NULL;
+      }
       char *x_pos = strchr(param_copy, 'x');
 
       if (x_pos) {
@@ -998,6 +1001,9 @@ uint8_t *apply_operation(
     }
     // Parse color and coordinates from param_str
     char *param_copy = strdup(param_str);
+    if (!param_copy) {
+      return NULL;
+    }
     char *color = strtok(param_copy, " ");
     double center_x = param2;
     double center_y = param3;
@@ -1032,6 +1038,9 @@ uint8_t *apply_operation(
     }
     // Parse color and coordinates from param_str
     char *param_copy = strdup(param_str);
+    if (!param_copy) {
+      return NULL;
+    }
     char *color = strtok(param_copy, " ");
     double center_x = param2;
     double center_y = param3;
@@ -1070,6 +1079,9 @@ uint8_t *apply_operation(
 
     // Parse marker coordinates from param_str: "x1×y1 x2×y2 ..."
     char *param_copy = strdup(param_str);
+    if (!param_copy) {
+      return NULL;
+    }
 
     // Count number of markers by counting spaces + 1
     int32_t num_markers = 1;
-- 
2.43.0


From 2dff68c5ddd94dd907e46b7f1a3ec9711423b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:41 +0000
Subject: [PATCH 52/56] fix: do not overflow the bit buffer of the JPEG encoder

---
 include/stb_image_write.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stb_image_write.h b/include/stb_image_write.h
index e4b32ed..f723ecd 100644
--- a/include/stb_image_write.h
+++ b/include/stb_image_write.h
@@ -1260,7 +1260,7 @@ static void stbiw__jpg_writeBits(stbi__write_context *s, int *bitBufP, int *bitC
       if(c == 255) {
          stbiw__putc(s, 0);
       }
-      bitBuf <<= 8;
+      bitBuf = (bitBuf & 0xffff) << 8; // drop the written bits, they would overflow
       bitCnt -= 8;
    }
    *bitBufP = bitBuf;
-- 
2.43.0


From 9de3911da0d8d51726046a8cfb4d43040ceeab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:28 +0000
Subject: [PATCH 53/56] fix: decode PNG files that start with an empty IDAT
 chunk

---
 include/stb_image.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stb_image.h b/include/stb_image.h
index 9eedabe..0177bbd 100644
--- a/include/stb_image.h
+++ b/include/stb_image.h
@@ -5191,7 +5191,8 @@ static int stbi__parse_png_file(stbi__png *z, int scan, int req_comp)
                p = (stbi_uc *) STBI_REALLOC_SIZED(z->idata, idata_limit_old, idata_limit); if (p == NULL) return stbi__err("outofmem", "Out of memory");
                z->idata = p;
             }
-            if (!stbi__getn(s, z->idata+ioff,c.length)) return stbi__err("outofdata","Corrupt PNG");
+            // An empty chunk may arrive before there is a buffer
+            if (c.length && !stbi__getn(s, z->idata+ioff,c.length)) return stbi__err("outofdata","Corrupt PNG");
             ioff += c.length;
             break;
          }
-- 
2.43.0


From 8639c0b4069f3e97c918614f9846297483f722e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:18 +0000
Subject: [PATCH 54/56] fix: keep PSD colors in range when removing the white
 matting

---
 include/stb_image.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/stb_image.h b/include/stb_image.h
index 0177bbd..aaae537 100644
--- a/include/stb_image.h
+++ b/include/stb_image.h
@@ -6124,6 +6124,13 @@ static int stbi__psd_decode_rle(stbi__context *s, stbi_uc *p, int pixelCount)
    return 1;
 }
 
+// Removes the white matting; the result stays a valid color component
+static float stbi__unblend(float value, float ra, float inv_a, float max)
+{
+   float result = value*ra + inv_a;
+   return result < 0 ? 0 : result > max ? max : result;
+}
+
 static void *stbi__psd_load(stbi__context *s, int *x, int *y, int *comp, int req_comp, stbi__result_info *ri, int bpc)
 {
    int pixelCount;
@@ -6289,9 +6296,9 @@ static void *stbi__psd_load(stbi__context *s, int *x, int *y, int *comp, int req
                float a = pixel[3] / 65535.0f;
                float ra = 1.0f / a;
                float inv_a = 65535.0f * (1 - ra);
-               pixel[0] = (stbi__uint16) (pixel[0]*ra + inv_a);
-               pixel[1] = (stbi__uint16) (pixel[1]*ra + inv_a);
-               pixel[2] = (stbi__uint16) (pixel[2]*ra + inv_a);
+               pixel[0] = (stbi__uint16) stbi__unblend(pixel[0], ra, inv_a, 65535.0f);
+               pixel[1] = (stbi__uint16) stbi__unblend(pixel[1], ra, inv_a, 65535.0f);
+               pixel[2] = (stbi__uint16) stbi__unblend(pixel[2], ra, inv_a, 65535.0f);
             }
          }
       } else {
@@ -6301,9 +6308,9 @@ static void *stbi__psd_load(stbi__context *s, int *x, int *y, int *comp, int req
                float a = pixel[3] / 255.0f;
                float ra = 1.0f / a;
                float inv_a = 255.0f * (1 - ra);
-               pixel[0] = (unsigned char) (pixel[0]*ra + inv_a);
-               pixel[1] = (unsigned char) (pixel[1]*ra + inv_a);
-               pixel[2] = (unsigned char) (pixel[2]*ra + inv_a);
+               pixel[0] = (unsigned char) stbi__unblend(pixel[0], ra, inv_a, 255.0f);
+               pixel[1] = (unsigned char) stbi__unblend(pixel[1], ra, inv_a, 255.0f);
+               pixel[2] = (unsigned char) stbi__unblend(pixel[2], ra, inv_a, 255.0f);
             }
          }
       }
-- 
2.43.0


From 30a5be7032c4bf0171b24bfa726a5b22e767cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:43 +0000
Subject: [PATCH 55/56] fix: refuse a BMP height that has no absolute value

---
 include/stb_image.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stb_image.h b/include/stb_image.h
index aaae537..1c3893e 100644
--- a/include/stb_image.h
+++ b/include/stb_image.h
@@ -5544,6 +5544,7 @@ static void *stbi__bmp_load(stbi__context *s, int *x, int *y, int *comp, int req
       return NULL; // error code already set
 
    flip_vertically = ((int) s->img_y) > 0;
+   if (s->img_y == 0x80000000u) return stbi__errpuc("too large","Very large image (corrupt?)"); // has no absolute value
    s->img_y = abs((int) s->img_y);
 
    if (s->img_y > STBI_MAX_DIMENSIONS) return stbi__errpuc("too large","Very large image (corrupt?)");
-- 
2.43.0


From 058de13a46dafb92dc1eb0163f9ce4effc8d03e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 56/56] fix: report a lack of memory while parsing the pipeline

---
 src/cli.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index 81418d6..139f9a5 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -148,9 +148,16 @@ void print32_t_usage(const char *program_name) {
 
 Pipeline *create_pipeline(void) {
   Pipeline *p = malloc(sizeof(Pipeline));
+  if (!p) {
+    return NULL;
+  }
   p->capacity = 8;
   p->count = 0;
   p->ops = malloc(sizeof(PipelineOp) * p->capacity);
+  if (!p->ops) {
+    free(p);
+    return NULL;
+  }
   return p;
 }
 
@@ -191,7 +198,12 @@ void add_operation(
 ) {
   if (p->count >= p->capacity) {
     p->capacity *= 2;
-    p->ops = realloc(p->ops, sizeof(PipelineOp) * p->capacity);
+    PipelineOp *ops = realloc(p->ops, sizeof(PipelineOp) * p->capacity);
+    if (!ops) {
+      fprintf(stderr, "Error: out of memory\n");
+      exit(1);
+    }
+    p->ops = ops;
   }
 
   strncpy(
@@ -454,6 +466,11 @@ int32_t parse_pipeline(
 
             // Parse position in format "x×y" or "xxy"
             char *pos_copy = strdup(position_str);
+            if (!pos_copy) {
+              fprintf(stderr, "Error: out of memory\n");
+              free(combined);
+              return 0;
+            }
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
@@ -530,6 +547,11 @@ int32_t parse_pipeline(
 
             // Parse position in format "x×y" or "xxy"
             char *pos_copy = strdup(position_str);
+            if (!pos_copy) {
+              fprintf(stderr, "Error: out of memory\n");
+              free(combined);
+              return 0;
+            }
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
@@ -646,6 +668,11 @@ int32_t parse_pipeline(
       else if (strcmp(piece, "extract_document_to") == 0) {
         // Parse output dimensions in format "widthxheight"
         char *params_copy = strdup(params_str);
+        if (!params_copy) {
+          fprintf(stderr, "Error: out of memory\n");
+          free(combined);
+          return 0;
+        }
         char *x_pos = strchr(params_copy, 'x');
         if (x_pos) {
           *x_pos = '\0';
@@ -1647,6 +1674,10 @@ int32_t main(int32_t argc, char *argv[]) {
 
   // Parse pipeline from arguments between input and output
   Pipeline *pipeline = create_pipeline();
+  if (!pipeline) {
+    fprintf(stderr, "Error: out of memory\n");
+    return 1;
+  }
   int32_t pipeline_end_idx = is_detect_corners_only ? argc : argc - 1;
   if (!parse_pipeline(argc, argv, 2, pipeline_end_idx, pipeline)) {
     free_pipeline(pipeline);
-- 
2.43.0

