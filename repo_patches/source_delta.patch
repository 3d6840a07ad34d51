From 3b89a30c09f449faf0d4b70e197b129bc8e62fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 01/33] fix: segm_mask no longer appends the background label
 to the caller's list

---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 83cd66f..40f4b5f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -224,7 +224,7 @@ def segm_mask(source, segm, mask_background=False):
     ):
         sources = [source]
     elif isinstance(source, list):
-        sources = source
+        sources = list(source)
     else:
         raise TypeError(
             "Input should be a label (int or photutils SourceCatalog) or a list of such items"
-- 
2.43.0


From b7cbff703b83c7bc99dee1ec7569cf068dfb26ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 02/33] fix: calculate_petrosian no longer truncates values of
 integer inputs

---
 petrofit/petrosian/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 0e8d28c..5597261 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -69,7 +69,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
     # Compute the surface brightness at the edge of each aperture
     zero_mask = np.where(area_diff > 0)
-    I_at_r = np.zeros_like(area_diff)
+    I_at_r = np.zeros_like(area_diff, dtype=float)
     I_at_r[zero_mask] = flux_diff[zero_mask] / area_diff[zero_mask]
 
     # Compute the Petrosian value at each radius
@@ -96,7 +96,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
         flux_diff_err = np.sqrt(flux_err[:-1] ** 2 + flux_err[1:] ** 2)
 
         # Compute the error in the surface brightness at the edge of each aperture
-        I_at_r_err = np.zeros_like(area_diff)
+        I_at_r_err = np.zeros_like(area_diff, dtype=float)
         I_at_r_err[zero_mask] = abs(I_at_r[zero_mask]) * np.sqrt(
             (flux_diff_err[zero_mask] / flux_diff[zero_mask]) ** 2
             + (area_diff_err[zero_mask] / area_diff[zero_mask]) ** 2
@@ -108,7 +108,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
         )
 
         # Compute the error in the Petrosian value at each radius
-        petrosian_err = np.zeros_like(area_diff)
+        petrosian_err = np.zeros_like(area_diff, dtype=float)
         petrosian_err[zero_mask] = abs(petrosian_list[1:][zero_mask]) * np.sqrt(
             (I_at_r_err[zero_mask] / I_at_r[zero_mask]) ** 2
             + (I_avg_within_r_err[zero_mask] / I_avg_within_r[zero_mask]) ** 2
-- 
2.43.0


From 0cc0c17f32342f87e8348bc1ffb8601331ab39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 03/33] fix: calculate_petrosian maps repeated areas to the
 first aperture with that area

---
 petrofit/petrosian/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 5597261..e0c32ac 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -79,8 +79,11 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
     petrosian_list = np.insert(petrosian_list, 0, np.nan)
 
     # Match input
-    _, unique_indices = np.unique(area_list, return_inverse=True)
-    petrosian_list = petrosian_list[unique_indices]
+    # (an aperture that repeats an area takes the value of the first one with that area)
+    _, first_indices, unique_indices = np.unique(
+        area_list, return_index=True, return_inverse=True
+    )
+    petrosian_list = petrosian_list[first_indices[unique_indices]]
 
     if area_err is not None or flux_err is not None:
         # Convert input to array
@@ -118,7 +121,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
         petrosian_err = np.insert(petrosian_err, 0, np.nan)
 
         # Match input
-        petrosian_err = petrosian_err[unique_indices]
+        petrosian_err = petrosian_err[first_indices[unique_indices]]
 
         return petrosian_list, petrosian_err
     return petrosian_list, None
-- 
2.43.0


From efb00d8df424e437593640aa026d51448bc3ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 04/33] fix: petrosian error is defined for annuli without flux

---
 petrofit/petrosian/core.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index e0c32ac..de6e3b0 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -100,9 +100,12 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
         # Compute the error in the surface brightness at the edge of each aperture
         I_at_r_err = np.zeros_like(area_diff, dtype=float)
-        I_at_r_err[zero_mask] = abs(I_at_r[zero_mask]) * np.sqrt(
-            (flux_diff_err[zero_mask] / flux_diff[zero_mask]) ** 2
-            + (area_diff_err[zero_mask] / area_diff[zero_mask]) ** 2
+        I_at_r_err[zero_mask] = (
+            np.sqrt(
+                flux_diff_err[zero_mask] ** 2
+                + (I_at_r[zero_mask] * area_diff_err[zero_mask]) ** 2
+            )
+            / area_diff[zero_mask]
         )
 
         # Compute the error in the average surface brightness within each aperture
@@ -112,10 +115,10 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
         # Compute the error in the Petrosian value at each radius
         petrosian_err = np.zeros_like(area_diff, dtype=float)
-        petrosian_err[zero_mask] = abs(petrosian_list[1:][zero_mask]) * np.sqrt(
-            (I_at_r_err[zero_mask] / I_at_r[zero_mask]) ** 2
-            + (I_avg_within_r_err[zero_mask] / I_avg_within_r[zero_mask]) ** 2
-        )
+        petrosian_err[zero_mask] = np.sqrt(
+            I_at_r_err[zero_mask] ** 2
+            + (petrosian_list[1:][zero_mask] * I_avg_within_r_err[zero_mask]) ** 2
+        ) / abs(I_avg_within_r[zero_mask])
 
         # Append the first Petrosian error to the beginning of the array
         petrosian_err = np.insert(petrosian_err, 0, np.nan)
-- 
2.43.0


From 34520f7398af3544ea59b39fbef0db06cd98b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 05/33] fix: half_flux_err reads the existing half-light radius
 properties

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index de6e3b0..c475613 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -828,13 +828,13 @@ class Petrosian:
         Returns the photometric uncertainty at `r_half_flux` or np.nan if out of range.
         Note that this includes errors in estimating `r_half_flux`.
         """
-        r_half_flux_err = self.r_half_flux_err
+        r_half_flux_err = self.r_half_light_err
 
         if self.flux_err is None or np.isnan(self.half_flux):
             return np.nan
 
         f = interp1d(self.r_list, self.flux_err, kind="nearest")
-        flux_err = f(self.r_half_flux)
+        flux_err = f(self.r_half_light)
         return np.sqrt(flux_err**2 + r_half_flux_err**2)
 
     @property
-- 
2.43.0


From 0fd9f510069f1c18e06da65ff88deb2de5e6bafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 06/33] fix: total_flux and half_flux work when interpolation
 is off

---
 petrofit/petrosian/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index c475613..9ee20b5 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -790,7 +790,11 @@ class Petrosian:
         if not min(self.r_list) <= r_total_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_total_flux)
         return float(total_flux)
 
@@ -818,7 +822,11 @@ class Petrosian:
         if not min(self.r_list) <= r_half_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_half_flux)
         return float(total_flux)
 
-- 
2.43.0


From e916bf93518c29254f1136d4300697155c7d0442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 07/33] fix: fraction_to_r returns NaN when r_epsilon is below
 the measured radii

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 9ee20b5..6800442 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -294,7 +294,7 @@ def fraction_to_r(
 
     r_epsilon = r_petrosian * epsilon
 
-    if r_epsilon > max(r_list):
+    if not min(r_list) <= r_epsilon <= max(r_list):
         return np.nan, np.nan
 
     f = interp1d(
-- 
2.43.0


From 2faf2f1d944ea7ca3d205093493d5dc5973bc928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 08/33] fix: fraction_to_r error is NaN when r_epsilon +/- its
 error leaves the measured radii

---
 petrofit/petrosian/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 6800442..8231f14 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -329,11 +329,13 @@ def fraction_to_r(
         r_list,
         flux_list - flux_err,
         kind="cubic" if interp_kind is None else interp_kind,
+        bounds_error=False,
     )
     f_upper = interp1d(
         r_list,
         flux_list + flux_err,
         kind="cubic" if interp_kind is None else interp_kind,
+        bounds_error=False,
     )
 
     fractional_flux_err_lower = f_lower(r_epsilon - r_epsilon_err)
-- 
2.43.0


From f5ad557bc61fc0216b7bc8dc8caf47017f9002fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 09/33] fix: fraction_to_r errors use the requested
 interpolation

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 8231f14..06a8aff 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -348,13 +348,13 @@ def fraction_to_r(
     fractional_flux_lower = fractional_flux - fractional_flux_err
 
     r_list_lower, flux_list_lower = get_interpolated_values(
-        r_list, flux_list - flux_err
+        r_list, flux_list - flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_upper, flux_list_lower, growing=True)
     r_frac_upper = np.nan if idx is None else r_list_lower[idx]
 
     r_list_upper, flux_list_upper = get_interpolated_values(
-        r_list, flux_list + flux_err
+        r_list, flux_list + flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_lower, flux_list_upper, growing=True)
     r_frac_lower = np.nan if idx is None else r_list_upper[idx]
-- 
2.43.0


From 0412fcb4f608d23366e199b16f565480e447762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 10/33] fix: plot_cog works for profiles with area errors only

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 06a8aff..466fac5 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1154,7 +1154,7 @@ class Petrosian:
             label="Data",
         )
 
-        if err_alpha is not None and self.has_petrosian_err and err_alpha > 0:
+        if err_alpha is not None and self.flux_err is not None and err_alpha > 0:
             ax.fill_between(
                 self.r_list,
                 self.flux_list - self.flux_err,
-- 
2.43.0


From cf132140b7c75e9bcd538e7367f4cddd6e35428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 11/33] fix: estimate_epsilon supports epsilon_fraction=0.5 on
 generated grids

---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index ba37500..0c29e1c 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -482,7 +482,7 @@ class PetrosianCorrection:
         eta = p.eta
 
         if epsilon_fraction == 0.5:
-            r_ep = row["c_r_eff"]
+            r_ep = row["c_r_50"]
         elif epsilon_fraction == 0.8:
             r_ep = row["c_r_80"]
         elif epsilon_fraction == 0.99:
-- 
2.43.0


From 81a70495f42d54d70a25b23253a21e37c16725b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 12/33] fix: hst_flux_to_abmag accepts numpy scalars and
 integer sequences

---
 petrofit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index ca7ff16..cc73872 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -60,8 +60,8 @@ def make_radius_list(max_pix, n, log=False):
 def hst_flux_to_abmag(flux, header):
     """Convert HST flux to AB Mag"""
     if not type(flux) in [int, float]:
-        flux = np.array(flux)
-        flux[np.where(flux <= 0)] = np.nan
+        flux = np.array(flux, dtype=float)
+        flux[flux <= 0] = np.nan
     elif flux <= 0:
         return np.nan
 
-- 
2.43.0


From b4fe7255b75d1147486a23dbfadd2d790604980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 13/33] fix: cutout_subtract copies the image and handles odd
 sizes and image edges

---
 petrofit/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index cc73872..1b12653 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -230,10 +230,14 @@ def cutout_subtract(image, target, x, y):
     """
 
     dy, dx = target.shape
-    bounds = np.array([y - dy // 2, y + dy // 2, x - dx // 2, x + dx // 2])
-    bounds[bounds < 0] = 0
-    ymin, ymax, xmin, xmax = bounds
-    image[ymin:ymax, xmin:xmax] -= target
+    ny, nx = image.shape
+    y0, x0 = y - dy // 2, x - dx // 2
+    ymin, ymax = np.clip([y0, y0 + dy], 0, ny)
+    xmin, xmax = np.clip([x0, x0 + dx], 0, nx)
+    image = np.array(image)
+    image[ymin:ymax, xmin:xmax] -= target[
+        ymin - y0 : ymax - y0, xmin - x0 : xmax - x0
+    ]
     return image
 
 
-- 
2.43.0


From 10ed11bd175646068a91dd4cbdcf6db62bc57ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 14/33] fix: fit_model excludes masked pixels whatever fitter
 is used

---
 petrofit/modeling/fitting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 385e541..8883a8c 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -92,6 +92,10 @@ def fit_model(
             Fitter used to estimate and set model parameters.
     """
 
+    # Masked pixels (e.g. sigma clipped) are not valid pixels
+    if isinstance(image, np.ma.MaskedArray):
+        image = image.astype(float).filled(np.nan)
+
     # Make x and y grid to fit to
     y_arange, x_arange = np.where(~(np.isnan(image)))
 
-- 
2.43.0


From bac0d03b61961141a6b79bae5d6c041becab8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 15/33] fix: fit_model returns the fitter that did the fit

---
 petrofit/modeling/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 8883a8c..06d164c 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -127,7 +127,7 @@ def fit_model(
     else:
         fitted_model = fitter_instance(model, x_arange, y_arange, z, weights=w)
 
-    return fitted_model, fitter
+    return fitted_model, fitter_instance
 
 
 def _validate_image_size(size):
-- 
2.43.0


From 5a620f3d68140c6d3c41de4a2fd21761f0d397f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 16/33] fix: Nuker2D radius is the distance to the centre

---
 petrofit/modeling/models.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 2dba4e7..d61a39e 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -594,11 +594,9 @@ class GenSersic2D(models.Sersic2D):
 @custom_model
 def Nuker2D(x, y, amplitude=1, r_break=1, x_0=0, y_0=0, alpha=2, betta=4, gamma=0):
     """Two dimensional Nuker2D model"""
-    x_maj = (x - x_0) + (y - y_0)
-    x_min = -(x - x_0) + (y - y_0)
-    r = np.sqrt((x_maj) ** 2 + (x_min) ** 2)
+    r = np.sqrt((x - x_0) ** 2 + (y - y_0) ** 2)
 
-    r[np.where(r == 0)] = np.nan
+    r = np.where(r == 0, np.nan, r)
 
     return (
         amplitude
-- 
2.43.0


From b023c13c3d46bc1ae1935d484e0cd7f9353ddd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 17/33] fix: oversample=None is rejected while psf_oversample
 needs an oversampling factor

---
 petrofit/modeling/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index d61a39e..aa6d6a5 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -270,7 +270,12 @@ class PSFConvolvedModel2D(FittableModel):
     @oversample.setter
     def oversample(self, oversample):
         psf_oversample = self._get_psf_factor()
-        if oversample is not None:
+        if oversample is None:
+            if psf_oversample != 1:
+                raise ValueError(
+                    "oversample should be equal to or an integer multiple of psf_oversample"
+                )
+        else:
             if isinstance(oversample, (tuple, list, np.ndarray)):
                 if len(oversample) != 4:
                     raise ValueError("oversample should be (x, y, size, factor).")
-- 
2.43.0


From d13990fa28ebd805f0c3ebc7fd62ea8569368f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 18/33] fix: oversampling window follows the image origin and
 is clipped to the image

---
 petrofit/modeling/models.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index aa6d6a5..8c7e1a3 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -502,20 +502,22 @@ class PSFConvolvedModel2D(FittableModel):
                 )
 
                 # Compute window indices in main image frame at data resolution first
-                i_sub_min = int(np.round(sub_grid_origin[0]))
-                j_sub_min = int(np.round(sub_grid_origin[1]))
-                i_sub_max = i_sub_min + sub_grid_size
-                j_sub_max = j_sub_min + sub_grid_size
+                i_origin = int(np.round(sub_grid_origin[0] - x.min()))
+                j_origin = int(np.round(sub_grid_origin[1] - y.min()))
 
                 # Clip window indices
-                if i_sub_min < 0:
-                    i_sub_min = 0
-                if j_sub_min < 0:
-                    j_sub_min = 0
-                if i_sub_max > i.max():
-                    i_sub_max = i.max() + 1
-                if j_sub_max > j.max():
-                    j_sub_max = j.max() + 1
+                i_sub_min, i_sub_max = np.clip(
+                    [i_origin, i_origin + sub_grid_size], 0, i.max() + 1
+                )
+                j_sub_min, j_sub_max = np.clip(
+                    [j_origin, j_origin + sub_grid_size], 0, j.max() + 1
+                )
+
+                # Clip window image to the part inside the main image (at PSF resolution)
+                sub_model_image = sub_model_image[
+                    (j_sub_min - j_origin) * psf_factor : (j_sub_max - j_origin) * psf_factor,
+                    (i_sub_min - i_origin) * psf_factor : (i_sub_max - i_origin) * psf_factor,
+                ]
 
                 # Convert to PSF resolution
                 i_sub_min *= psf_factor
-- 
2.43.0


From 794ad5e43cef7b497b75ff8a90a2c1d1f535b20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 19/33] fix: closest_value_index ignores NaN elements

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 1b12653..8052f16 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -162,7 +162,7 @@ def closest_value_index(value, array, growing=False):
     idx = None
     if idx_list.size > 0:
         idx = idx_list[0]
-        idx = abs(array[: idx + 1] - value).argmin()
+        idx = np.nanargmin(abs(array[: idx + 1] - value))
     return idx
 
 
-- 
2.43.0


From 5716f9decee5c44ab23b733ac0f44f1d881fc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 20/33] fix: source_photometry bound rejection uses sigma as a
 value as documented

---
 petrofit/segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 40f4b5f..88e488f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -660,8 +660,8 @@ def source_photometry(
                     )
 
                     fit_bg_image = masked_stats_image
-                    fit_bg_image[np.where(fit_bg_image > mean + std * sigma)] = np.nan
-                    fit_bg_image[np.where(fit_bg_image < mean - std * sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image > mean + sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan
                 else:
                     raise (
                         "background image masking sigma type not understood, try 'clip' or 'bound'"
-- 
2.43.0


From f4242e852665cbfefd750387f36092b8b2daedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 21/33] fix: source_photometry raises ValueError for an unknown
 sigma_type

---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 88e488f..ee56383 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -663,7 +663,7 @@ def source_photometry(
                     fit_bg_image[np.where(fit_bg_image > mean + sigma)] = np.nan
                     fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan
                 else:
-                    raise (
+                    raise ValueError(
                         "background image masking sigma type not understood, try 'clip' or 'bound'"
                     )
 
-- 
2.43.0


From 91490981ef3f7aa7a47f7d98c11a79b9e917bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 22/33] fix: measure_fwhm plots its fit

---
 petrofit/modeling/fitting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 06d164c..02ada51 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -540,7 +540,8 @@ def measure_fwhm(image, plot=True, printout=True):
 
     if plot:
 
-        fig, [ax0, ax1, ax2, ax3] = plot_fit(image, fitted_line)
+        axs, _, _, _ = plot_fit(fitted_line, image)
+        ax0 = axs[0]
 
         # Make x and y grid to plot to
         y_arange, x_arange = np.mgrid[: image.shape[0], : image.shape[1]]
@@ -562,6 +563,8 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot X fit
         # ----------
 
+        fig, [ax2, ax3] = plt.subplots(1, 2, figsize=[12, 6])
+        ax2.plot(x_arange[0], fitted_line(x_arange[0], y_mean), label="X Fit")
         ax2.axvline(x_mean, linestyle="-", label="Center")
         ax2.axvline(x_mean - x_fwhm / 2, c="c", linestyle="--", label="X FWHM")
         ax2.axvline(x_mean + x_fwhm / 2, c="c", linestyle="--")
@@ -572,6 +575,7 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot Y fit
         # ----------
 
+        ax3.plot(y_arange[:, 0], fitted_line(x_mean, y_arange[:, 0]), label="Y Fit")
         ax3.axvline(y_mean, linestyle="-", label="Center")
         ax3.axvline(y_mean - y_fwhm / 2, c="g", linestyle="--", label="Y FWHM")
         ax3.axvline(y_mean + y_fwhm / 2, c="g", linestyle="--")
-- 
2.43.0


From b8cff5bc750ee34caca3697bdcc96cbbbaa0a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 23/33] fix: PSF-convolved images at fractional origins index
 pixels by rounding, not truncation

---
 petrofit/modeling/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 8c7e1a3..c1670cc 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -386,8 +386,8 @@ class PSFConvolvedModel2D(FittableModel):
         *sub_model_params, psf_p = params
 
         # Prepare image indices
-        i = (x - x.min()).astype(int)
-        j = (y - y.min()).astype(int)
+        i = np.round(x - x.min()).astype(int)
+        j = np.round(y - y.min()).astype(int)
 
         # Is oversampling sub-grid based
         is_subgrid_oversample = isinstance(self.oversample, tuple)
-- 
2.43.0


From b17b8c4b4f9846f68992ce74e5693496b26d8af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 24/33] fix: GenSersic2D evaluates with current astropy

---
 petrofit/modeling/models.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index c1670cc..9d81087 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -580,12 +580,7 @@ class GenSersic2D(models.Sersic2D):
     def evaluate(cls, x, y, amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0):
         """Two dimensional Sersic profile function."""
 
-        if cls._gammaincinv is None:
-            from scipy.special import gammaincinv
-
-            cls._gammaincinv = gammaincinv
-
-        bn = cls._gammaincinv(2.0 * n, 0.5)
+        bn = gammaincinv(2.0 * n, 0.5)
         a, b = r_eff, (1 - ellip) * r_eff
         cos_theta, sin_theta = np.cos(theta), np.sin(theta)
         x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
-- 
2.43.0


From a4253c3c95918842891b2d3560c7ee4c4ccd03ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 25/33] fix: cutout_subtract accepts integer images with float
 targets

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 8052f16..7f8fd4a 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -234,7 +234,7 @@ def cutout_subtract(image, target, x, y):
     y0, x0 = y - dy // 2, x - dx // 2
     ymin, ymax = np.clip([y0, y0 + dy], 0, ny)
     xmin, xmax = np.clip([x0, x0 + dx], 0, nx)
-    image = np.array(image)
+    image = np.array(image, dtype=np.result_type(image, target))
     image[ymin:ymax, xmin:xmax] -= target[
         ymin - y0 : ymax - y0, xmin - x0 : xmax - x0
     ]
-- 
2.43.0


From f068f1859479634a330352b8c3628b020bc5f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 26/33] fix: segm_mask of an empty list of sources is all
 False, not None

---
 petrofit/segmentation.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index ee56383..59c6c82 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -233,15 +233,12 @@ def segm_mask(source, segm, mask_background=False):
     if not mask_background:
         sources.append(0)
 
-    mask = None
+    mask = np.zeros(segm.data.shape, dtype=bool)
     for source in sources:
         if isinstance(source, SourceCatalog):
             source = [source.label]
 
-        if mask is None:
-            mask = segm.data == source
-        else:
-            mask = (segm.data == source) | mask
+        mask = (segm.data == source) | mask
     return mask
 
 
-- 
2.43.0


From 4309bc3a859cd0f393cd84a12e6efe67c52603aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 27/33] fix: masked_segm_image fills integer images with NaN
 instead of raising

---
 petrofit/segmentation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 59c6c82..5da8af8 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -275,10 +275,19 @@ def masked_segm_image(source, image, segm, fill=None, mask_background=False):
 
     masked_image = deepcopy(image)
 
+    # Integer images can not hold a float fill value (NaN by default)
+    data = masked_image if isinstance(image, np.ndarray) else masked_image.data
+    if data.dtype.kind in "biu" and not np.can_cast(
+        np.min_scalar_type(fill), data.dtype
+    ):
+        data = data.astype(np.result_type(data.dtype, type(fill)))
+
+    data[np.invert(mask)] = fill
+
     if isinstance(masked_image, np.ndarray):
-        masked_image[np.invert(mask)] = fill
+        masked_image = data
     else:
-        masked_image.data[np.invert(mask)] = fill
+        masked_image.data = data
 
     return masked_image
 
-- 
2.43.0


From e30277254a74caa0146f73eacf85cd215a6a802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 28/33] fix: fit_gaussian2d and measure_fwhm of images with NaN
 pixels

---
 petrofit/modeling/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 02ada51..c2b281c 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -316,7 +316,7 @@ def fit_gaussian2d(image):
 
     # Create model to fit
     model = models.Gaussian2D(
-        amplitude=image.max(), x_mean=x_mean, y_mean=y_mean, fixed={}
+        amplitude=np.nanmax(image), x_mean=x_mean, y_mean=y_mean, fixed={}
     )
 
     # Fit model to grid
-- 
2.43.0


From 21445d6ca85766898443b296639e38a4b1b6ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 29/33] fix: source_photometry accepts integer error maps at
 the frame edge

---
 petrofit/segmentation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 5da8af8..c1dcb89 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -622,8 +622,13 @@ def source_photometry(
     # ------------
     masked_err = None
     if error is not None:
+        # Integer error maps can not hold the NaN fill value
         masked_err = Cutout2D(
-            error, position, cutout_size, mode="partial", fill_value=np.nan
+            np.asarray(error, dtype=float),
+            position,
+            cutout_size,
+            mode="partial",
+            fill_value=np.nan,
         ).data
 
     # Image Cutout
-- 
2.43.0


From d0b099eba470ff3e9d27e70bb73e46bd980e7d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 30/33] fix: CoreSersic2D radius is the elliptical radius in
 pixels

---
 petrofit/modeling/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 9d81087..b3566a8 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -627,13 +627,12 @@ def CoreSersic2D(
     Core Sersic model as defined by Graham et al 2003.
     """
     bn = gammaincinv(2.0 * n, 0.5)
-    a, b = r_eff, (1 - ellip) * r_eff
     cos_theta, sin_theta = np.cos(theta), np.sin(theta)
     x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
     x_min = -(x - x_0) * sin_theta + (y - y_0) * cos_theta
-    r = np.sqrt((x_maj / a) ** 2 + (x_min / b) ** 2)
+    r = np.sqrt(x_maj**2 + (x_min / (1 - ellip)) ** 2)
 
-    r[np.where(r == 0)] = np.nan
+    r = np.where(r == 0, np.nan, r)
 
     I = (
         amplitude
-- 
2.43.0


From aff8ba675cf802bdd2ed6a8018e7c7910d58fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:05 +0000
Subject: [PATCH 31/33] fix: constraints given to a PSF wrapper discarded the
 wrapped model's other constraints

---
 petrofit/modeling/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index b3566a8..37aafb9 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -191,10 +191,10 @@ class PSFConvolvedModel2D(FittableModel):
         super().__init__(name=name, **kwargs)
 
         # Sync model states
-        if "fixed" not in kwargs:
-            self.fixed.update(model.fixed)
-        if "bounds" not in kwargs:
-            self.bounds.update(model.bounds)
+        fixed = kwargs.get("fixed") or {}
+        self.fixed.update({k: v for k, v in model.fixed.items() if k not in fixed})
+        bounds = kwargs.get("bounds") or {}
+        self.bounds.update({k: v for k, v in model.bounds.items() if k not in bounds})
 
     def _load_parameters(self):
         """Function to load parameters from the sub-model"""
-- 
2.43.0


From 5cbc99ae52a9843e725f1da2d295eed0b9dc565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 32/33] fix: curves of growth in narrow or unsigned integers
 overflowed in the profile and the fraction radii

---
 petrofit/petrosian/core.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 466fac5..28e8b87 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -52,8 +52,9 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
     """
 
     # Convert input to array
-    area_list = np.array(area_list)
-    flux_list = np.array(flux_list)
+    # (as floats: narrow or unsigned integers overflow when subtracted or squared)
+    area_list = np.array(area_list, dtype=float)
+    flux_list = np.array(flux_list, dtype=float)
 
     # Validate input
     assert len(area_list) == len(flux_list)
@@ -87,8 +88,16 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
     if area_err is not None or flux_err is not None:
         # Convert input to array
-        area_err = np.zeros_like(area_list) if area_err is None else np.array(area_err)
-        flux_err = np.zeros_like(flux_list) if flux_err is None else np.array(flux_err)
+        area_err = (
+            np.zeros_like(area_list)
+            if area_err is None
+            else np.array(area_err, dtype=float)
+        )
+        flux_err = (
+            np.zeros_like(flux_list)
+            if flux_err is None
+            else np.array(flux_err, dtype=float)
+        )
 
         # Validate input
         assert len(area_err) == len(area_list)
@@ -285,10 +294,10 @@ def fraction_to_r(
         Error in `r_fraction_flux`.
     """
 
-    r_list = np.array(r_list)
-    flux_list = np.array(flux_list)
+    r_list = np.array(r_list, dtype=float)
+    flux_list = np.array(flux_list, dtype=float)
     if flux_err is not None:
-        flux_err = np.array(flux_err)
+        flux_err = np.array(flux_err, dtype=float)
     if r_petrosian_err is not None:
         r_petrosian_err = np.array(r_petrosian_err)
 
-- 
2.43.0


From db0b071c93d216b0d8ee4af2cd1b95d6f970c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:54 +0000
Subject: [PATCH 33/33] fix: figures drawn on given axes changed the ticks of
 the current axes

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 28e8b87..5d68d86 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1079,7 +1079,7 @@ class Petrosian:
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         if show_legend:
@@ -1222,7 +1222,7 @@ class Petrosian:
             fontsize=ax_fontsize,
         )
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         ax.set_ylim(0, None)
-- 
2.43.0

