From 20d91a07a3ba61e0c06e0626628cbc35757a2855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 001/112] fix: histogram wrote outside its arrays when a value
 lay at the upper limit of num_bins or of a rounded bin edge

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 561cca7..32c1feb 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -104,6 +104,9 @@ def get_hist(
             continue
         # Calculate the index for indices and histogram
         bin_i = int(n * (data[idx] - bin_min) / bin_divider)
+        # Values beyond the last bin edge (up to max) belong to the last bin
+        if bin_i > n:
+            bin_i = n
         # Add to the histogram
         hist[bin_i] += 1
     return hist
@@ -214,6 +217,9 @@ def get_ri(
             continue
         # Calculate the index for indices and histogram
         bin_i = int(n * (data[idx] - bin_min) / bin_divider)
+        # Values beyond the last bin edge (up to max) belong to the last bin
+        if bin_i > n:
+            bin_i = n
         # Record the current index and update the tracking array
         ri[tracker[bin_i]] = idx
         tracker[bin_i] += 1
@@ -282,7 +288,9 @@ def histogram(
     bins = get_bins(min, max, bin_size)
     # However, if we set a max, we must adjust the last bin to max according to IDL specifications
     # And we only do this in the case max was by an argument
-    if (bins[-1] > max) or num_bins is not None:
+    if num_bins is not None:
+        bins = bins[:num_bins]
+    elif bins[-1] > max:
         bins = bins[:-1]
     # Flatten the data
     data_flat = data.flatten()
-- 
2.43.0


From af4bb5f4e04d168bc6f1f1b8f4107056ea01aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 002/112] fix: rebin sampled a two dimensional array with one
 row along the wrong axis

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 32c1feb..1c581b5 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -561,7 +561,7 @@ def rebin(
     # Sample the original array using rebin
     if sample:
         # If its a 1D array then...
-        if old_shape[0] == 1:
+        if a.ndim == 1:
             if shape[1] > old_shape[1]:
                 rebinned = np.repeat(a, shape[1] // old_shape[1], axis=0)
             else:
-- 
2.43.0


From a1067cc23cbbe062a19a10c6db12df91913c839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 003/112] fix: rebin could not expand a two dimensional array
 with one row

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 1c581b5..e135550 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -630,7 +630,7 @@ def rebin(
         ax = 0
         # If 1D array then do along the columns
         if old_shape[0] == 1:
-            rebinned = rebin_columns(a, ax, shape, col_sizer)
+            rebinned = rebin_columns(a, a.ndim - 1, shape, col_sizer)
             if shape[0] == 1:
                 rebinned = rebinned[0]
         # Else its a 2D array
-- 
2.43.0


From ec61a4e4c70c6740964274e650b50596dbab9b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 004/112] fix: rebin mixed unrelated elements when one axis
 grows and the other shrinks

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index e135550..673f485 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -591,13 +591,11 @@ def rebin(
             max(old_shape[1], shape[1]) % min(old_shape[1], shape[1]) != 0
         ):
             raise ValueError("Your new shape should be a factor of the original shape")
-        # If we are increasing the rows or columns and reducing the other, increase them now and change the old shape
+        # If we are increasing the rows or columns and reducing the other, reduce first then interpolate
         if shape[0] > old_shape[0]:
-            a = np.tile(a, (shape[0], 1))
-            old_shape = a.shape
+            return rebin(np.atleast_2d(rebin(a, (old_shape[0], shape[1]))), shape)
         elif shape[1] > old_shape[1]:
-            a = np.tile(a, (1, shape[1]))
-            old_shape = a.shape
+            return rebin(np.atleast_2d(rebin(a, (shape[0], old_shape[1]))), shape)
         # Create the shape we need (rows, rows that can fit in old_shape, cols, cols that can fit into old_shape)
         sh = shape[0], old_shape[0] // shape[0], shape[1], old_shape[1] // shape[1]
         # Create the 4D array
-- 
2.43.0


From 07672e1d05f557ffa47639f69d52725cc3a6cdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 005/112] fix: array_match without a second array matched bins
 that hold no elements

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 673f485..d3884b8 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -767,7 +767,7 @@ def array_match(
         min_use = np.min(array_1)
         max_use = np.max(array_1)
         # Supply a second hist
-        hist2 = np.arange(max_use - min_use + 1)
+        hist2 = np.zeros(int(max_use - min_use + 1), dtype=np.int64)
     # Get the histogram for the first
     hist1, _, ri1 = histogram(array_1, min=min_use, max=max_use)
     # Arrays should be the same size, does addition
-- 
2.43.0


From d4001216e49e942270d2d38de28d1c4986abe86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 006/112] fix: array_match ignored a value listed an even
 number of times

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index d3884b8..1e74835 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -779,7 +779,7 @@ def array_match(
     omin = bins_v1[0]
     omax = bins_v1[-1]
     hist_v2, _, _ = histogram(value_match, min=omin, max=omax)
-    vals = np.nonzero(np.bitwise_and(hist_v1, hist_v2))[0] + omin - min_use
+    vals = np.nonzero((hist_v1 > 0) & (hist_v2 > 0))[0] + omin - min_use
     n_match = vals.size
 
     if n_match == 0:
-- 
2.43.0


From 8c5357eca6123b14c9e6e59f60529bab7881d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 007/112] fix: idl_median returned the element after the median
 for odd lengths

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 1e74835..2caa2f8 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1386,7 +1386,7 @@ def idl_median(
         if even:
             return np.median(x)
         else:
-            med_index = int(np.ceil(len(x) / 2))
+            med_index = len(x) // 2
 
             return np.sort(x)[med_index]
 
-- 
2.43.0


From dd2cfbb3e92674434a0f85ffd0e459a0a3b5058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 008/112] fix: angle_difference with nearest mixed degrees and
 radians and returned the larger angle

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 2caa2f8..588c8ad 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -949,7 +949,7 @@ def angle_difference(
     # Use built in astropy separtion instead of calculating it
     relative_angle = coord1.separation(coord2).value
     if nearest:
-        return max(relative_angle, 2 * pi - relative_angle)
+        return min(relative_angle, 360 - relative_angle)
     else:
         return relative_angle
 
-- 
2.43.0


From 00506aaf58ec2a60a1b3343ec7fd74ffa2e9b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 009/112] fix: simple_deproject_w_term built its phases as
 (baseline, frequency) and could not be applied

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 588c8ad..038b9ee 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1008,10 +1008,10 @@ def simple_deproject_w_term(
     """
 
     icomp = 1j
-    zcen = np.outer(params["ww"], obs["baseline_info"]["freq"])
+    zcen = np.outer(obs["baseline_info"]["freq"], params["ww"])
     sign = 1 if direction > 0 else -1
     phase = np.exp(direction * icomp * zcen)
-    vis_arr[: obs["n_pol"], :, :] *= np.tile(phase, (obs["n_pol"], 1))
+    vis_arr[: obs["n_pol"], :, :] *= phase
 
     sign_str = " +1" if sign > 0 else " -1"
     logger.info(f"Applying simple w-term deprojection:{sign_str}")
-- 
2.43.0


From 73b98ce0197f307852e3beba911ff3bb03477730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 010/112] fix: crosspol_split_real_imaginary overwrote its
 source before taking the imaginary part

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 038b9ee..4bccd87 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1565,7 +1565,7 @@ def crosspol_split_real_imaginary(
     pol_names : list[str]|None]
         _description_
     """
-    crosspol_image: NDArray[np.complex128] = image[2]
+    crosspol_image: NDArray[np.complex128] = image[2].copy()
     image[2] = crosspol_image.real
     image[3] = crosspol_image.imag
 
-- 
2.43.0


From 9b15d9c862804bb4106ca719c05c54b4b79acac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 011/112] fix: vis_weights_update zeroed the last baseline when
 no baseline used a flagged tile

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 4bccd87..60a4c31 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1182,7 +1182,8 @@ def vis_weights_update(
             tile_cut_i[0] + 1,
             obs["baseline_info"]["tile_b"],
         )
-        if np.size(bi_cut) > 0:
+        # array_match returns -1 when none of the cut tiles is part of a baseline
+        if np.min(bi_cut) >= 0:
             vis_weights[0 : obs["n_pol"], :, bi_cut] = 0
 
     time_cut_i = np.where(obs["baseline_info"]["time_use"] == 0)[0]
-- 
2.43.0


From 5747bcec882838082f4d6f860efa3410aaba32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 012/112] fix: split_vis_weights dropped the second half of the
 times and paired unused samples

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 60a4c31..3a1154c 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1250,7 +1250,7 @@ def split_vis_weights(
     )
     bin_end[-1] = int(nb - 1)
     bin_i = np.full(nb, -1, dtype=np.int64)
-    for t_i in range(obs["n_time"] // 2):
+    for t_i in range(obs["n_time"]):
         bin_i[obs["baseline_info"]["bin_offset"][t_i] : bin_end[t_i] + 1] = t_i
 
     time_start_i = int(np.min(np.nonzero(obs["baseline_info"]["time_use"])[0]))
@@ -1270,7 +1270,11 @@ def split_vis_weights(
             if bin_i_cut.size > 0:
                 bin_i[bin_i_cut] = -1
 
-    bi_use = [np.where(bin_i % 2 == 0)[0], np.where(bin_i % 2 == 1)[0]]
+    # -1 marks samples of times that are not in use (note that -1 % 2 is 1)
+    bi_use = [
+        np.where((bin_i >= 0) & (bin_i % 2 == 0))[0],
+        np.where((bin_i >= 0) & (bin_i % 2 == 1))[0],
+    ]
 
     # Here we ensure that both even and odd samples are the same size by
     # ensuring both arrays match the smallest size
-- 
2.43.0


From 2aaca1ccabc4f346cdf7e1cf441deeddf0a97573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 013/112] fix: vis_noise_calc overwrote the caller's weights
 with the even-odd split

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 3a1154c..cb993af 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1329,7 +1329,8 @@ def vis_noise_calc(
         return noise_arr
 
     if bi_use is None:
-        vis_weights_use, bi_use = split_vis_weights(obs, vis_weights)
+        # Split a copy, calculating the noise must not alter the weights
+        vis_weights_use, bi_use = split_vis_weights(obs, vis_weights.copy())
     else:
         vis_weights_use = vis_weights
 
-- 
2.43.0


From e1202c9a0fdd356782928d3b428897a5cc96984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 014/112] fix: vis_flag_tiles raised AttributeError on a known
 tile and flagged every tile but one baseline each otherwise

---
 PyFHD/flagging/flagging.py | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index d876691..f4eb4bb 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -1,7 +1,7 @@
 import numpy as np
 from numpy.typing import NDArray, ArrayLike
 from logging import Logger
-from PyFHD.pyfhd_tools.pyfhd_utils import idl_median, histogram
+from PyFHD.pyfhd_tools.pyfhd_utils import idl_median
 
 
 def vis_flag_tiles(
@@ -30,34 +30,24 @@ def vis_flag_tiles(
     flagged_vis_weight_arr: NDArray[np.float64]
         A vis_weight_arr where the tiles to flag have been set to 0
     """
-    tile_flag_list_use = np.array([], dtype=np.int64)
+    # The names can be strings or the tile numbers of a metafits file
+    tile_names = [str(name).strip() for name in obs["baseline_info"]["tile_names"]]
+    tile_flag_list_use = []
     for flag in tiles_to_flag:
-        if type(flag) == str and flag.strip() in obs["baseline_info"]["tile_names"]:
+        if str(flag).strip() in tile_names:
             logger.info(f"Manually flagging tile {flag}")
-            flag_idx = np.where(obs["baseline_info"]["tile_names"] == flag.strip())[0][
-                0
-            ]
-            tile_flag_list_use.append(flag_idx + 1)
+            tile_flag_list_use.append(tile_names.index(str(flag).strip()) + 1)
         else:
             logger.warning(
                 f"{flag} wasn't found in obs['baseline_info']['tile_names'], skipping it"
             )
-    hist_a, _, ra = histogram(obs["baseline_info"]["tile_a"], min=1)
-    hist_b, _, rb = histogram(obs["baseline_info"]["tile_b"], min=1)
-    hist_c, _, _ = histogram(tile_flag_list_use, min=1)
-    # hist_A and hist_b should be the same size
-    hist_ab = hist_a + hist_b
-    n_bin = min(np.size(hist_ab), np.size(hist_c))
-    tile_cut_i = np.where((hist_ab[0:n_bin] > 0) | (hist_c[0:n_bin] > 0))[0]
-    if np.size(tile_cut_i) > 0:
-        for cut_idx in range(np.size(tile_cut_i)):
-            ti = tile_cut_i[cut_idx]
-            na = ra[ra[ti + 1] - 1] - ra[ra[ti]]
-            if na > 0:
-                vis_weight_arr[:, :, ra[ra[ti] : ra[ti + 1] - 1]] = 0
-            nb = rb[rb[ti + 1] - 1] - rb[rb[ti]]
-            if nb > 0:
-                vis_weight_arr[:, :, rb[rb[ti] : rb[ti + 1] - 1]] = 0
+    # Cut every baseline that uses any of the tiles
+    baseline_cut_i = np.where(
+        np.isin(obs["baseline_info"]["tile_a"], tile_flag_list_use)
+        | np.isin(obs["baseline_info"]["tile_b"], tile_flag_list_use)
+    )[0]
+    if np.size(baseline_cut_i) > 0:
+        vis_weight_arr[:, :, baseline_cut_i] = 0
     return vis_weight_arr
 
 
-- 
2.43.0


From 1896e2253d935e33dc76d0559c6c6d1cdb235b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 015/112] fix: vis_flag_basic left the last baseline of an
 unused time unflagged

---
 PyFHD/flagging/flagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index f4eb4bb..ae2b5e7 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -179,7 +179,7 @@ def vis_flag_basic(
         time_bin = np.zeros(np.size(obs["baseline_info"]["tile_a"]))
         for ti in range(obs["n_time"]):
             if obs["baseline_info"]["time_use"][ti] <= 0:
-                vis_weight_arr[:, :, bin_offset[ti] : bin_offset[ti + 1] - 1] = 0
+                vis_weight_arr[:, :, bin_offset[ti] : bin_offset[ti + 1]] = 0
 
     tile_use_indexes = np.where((tile_use) & (obs["baseline_info"]["tile_use"]))[0]
     tile_use_zeros = np.zeros_like(obs["baseline_info"]["tile_use"])
-- 
2.43.0


From b338c2f2a3c4c81043814a492b860787218e65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 016/112] fix: vis_flag used uninitialised statistics, could
 not cut a time and kept its outliers in the second estimate

---
 PyFHD/flagging/flagging.py | 10 +++++-----
 PyFHD/pyfhd.py             |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index ae2b5e7..0b21c00 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -243,7 +243,7 @@ def vis_flag(
     if cut_baselines_i.size > 0:
         vis_weights[: obs["n_pol"], :, cut_baselines_i] = 0
 
-    tile_fom = np.empty(n_tiles_use)
+    tile_fom = np.zeros(n_tiles_use)
     for tile_i in range(n_tiles_use):
         tile_ai = np.where((obs["baseline_info"]["tile_a"] - 1) == tile_i)
         tile_bi = np.where((obs["baseline_info"]["tile_b"] - 1) == tile_i)
@@ -282,10 +282,10 @@ def vis_flag(
 
     # We actually want the complements of the where from IDL translation, adjusted conditions accordingly
     tile_cut0 = np.where(
-        (np.abs(tile_mean - tile_fom) <= 2 * flag_nsigma * tile_dev) | (tile_fom != 0)
+        (np.abs(tile_mean - tile_fom) <= 2 * flag_nsigma * tile_dev) & (tile_fom != 0)
     )[0]
     freq_cut0 = np.where(
-        (np.abs(freq_mean - freq_fom) <= 2 * flag_nsigma * freq_dev) | (freq_fom != 0)
+        (np.abs(freq_mean - freq_fom) <= 2 * flag_nsigma * freq_dev) & (freq_fom != 0)
     )[0]
     tile_mean2 = idl_median(tile_fom[tile_cut0])
     tile_dev2 = np.std(tile_fom[tile_cut0])
@@ -332,7 +332,7 @@ def vis_flag(
     time_mean = idl_median(time_fom[time_nonzero])
     time_dev = np.std(time_fom[time_nonzero])
     time_cut0 = np.where(
-        (np.abs(time_mean - time_fom) <= 2 * flag_nsigma * time_dev) | (time_fom != 0)
+        (np.abs(time_mean - time_fom) <= 2 * flag_nsigma * time_dev) & (time_fom != 0)
     )
     time_mean2 = idl_median(time_fom[time_cut0])
     time_dev2 = np.std(time_fom[time_cut0])
@@ -340,7 +340,7 @@ def vis_flag(
         (np.abs(time_mean2 - time_fom) > 2 * flag_nsigma * time_dev2) | (time_fom == 0)
     )[0]
     for ti in range(time_cut.size):
-        ti_cut = np.where(time_bin == time_cut[ti])
+        ti_cut = np.where(time_bin == time_cut[ti])[0]
         if ti_cut.size > 0:
             vis_weights[: obs["n_pol"], :, ti_cut] = 0
 
diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 063bbb3..add0cf3 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -304,7 +304,7 @@ def main():
 
             if pyfhd_config["flag_visibilities"]:
                 flag_start = time.time()
-                vis_weights, obs = vis_flag(vis_arr, vis_weights, obs, params)
+                vis_weights, obs = vis_flag(vis_arr, vis_weights, obs, params, logger)
                 flag_end = time.time()
                 _print_time_diff(flag_start, flag_end, "Visibilities Flagged", logger)
 
-- 
2.43.0


From 3a4ca9c2a139fa3a2968fb0ff014da8afd270106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 017/112] fix: vis_extract_autocorr could not convert tile
 numbers with a current numpy

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 205ded3..4203d66 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -49,7 +49,7 @@ def vis_extract_autocorr(
     if autocorr_i.size > 0:
         auto_tile_i = obs["baseline_info"]["tile_a"][autocorr_i] - 1
         # As auto_tile_i is used for indexing we need to make it an integer array
-        auto_tile_i = auto_tile_i.astype(np.integer)
+        auto_tile_i = auto_tile_i.astype(np.int64)
         auto_tile_i_single = np.unique(auto_tile_i)
         # expect it as a list of 2D arrays, so there might be trouble
         if not pyfhd_config["cal_time_average"]:
-- 
2.43.0


From e6c47bdd049afba540522ed89db4cb4bd30fd69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 018/112] fix: vis_extract_autocorr could not average a single
 time

---
 PyFHD/calibration/calibration_utils.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 4203d66..4b227cd 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -70,7 +70,7 @@ def vis_extract_autocorr(
                 for tile_i in range(auto_tile_i_single.size):
                     baseline_i = np.where(auto_tile_i == auto_tile_i_single[tile_i])[0]
                     baseline_i = baseline_i[time_inds]
-                    if time_inds.size > 1:
+                    if time_inds.size > 0:
                         # OK, auto_vals is of shape (n_freq, n_autos)
                         # We want to average a subset of baseline_i within auto_vals,
                         # to average a specific auto-correlation over time
@@ -81,11 +81,6 @@ def vis_extract_autocorr(
                             )
                             / time_inds.size
                         )
-
-                    else:
-                        auto_single[:, tile_i] = auto_vals[:, baseline_i][
-                            np.arange(obs["n_freq"]), :
-                        ]
                 auto_vals = auto_single
             auto_corr[pol_i, :, :] = auto_vals
         if pyfhd_config["cal_time_average"]:
-- 
2.43.0


From 3dd847fa9ef1648bb45f05201dc10c507a47df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 019/112] fix: vis_calibration_flag never flagged tiles and
 frequencies without any variation

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 4b227cd..b238174 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -226,11 +226,11 @@ def vis_calibration_flag(
         freq_cut_i = np.where(gain_freq_fom == 0)[0]
         freq_uncut_i = np.nonzero(gain_freq_fom)[0]
         if freq_cut_i.size > 0:
-            freq_use[freq_use_i][freq_cut_i] = 0
+            freq_use[freq_use_i[freq_cut_i]] = 0
         tile_cut_i = np.where(gain_tile_fom == 0)[0]
         tile_uncut_i = np.nonzero(gain_tile_fom)[0]
         if tile_cut_i.size > 0:
-            obs["baseline_info"]["tile_use"][tile_use_i][tile_cut_i] = 0
+            obs["baseline_info"]["tile_use"][tile_use_i[tile_cut_i]] = 0
         if freq_uncut_i.size == 0 or tile_uncut_i.size == 0:
             logger.error(
                 "The frequency and tile flagging inside calibration found some values not detected in previous flagging or calibration"
-- 
2.43.0


From c22968ab143d3d9f4b88dddac81ababe9bbbf61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 020/112] fix: cal_auto_ratio_divide divided gains of tiles
 without an auto-correlation by uninitialised memory

---
 PyFHD/calibration/calibration_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index b238174..2d84181 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1579,7 +1579,8 @@ def cal_auto_ratio_divide(
         visibilities normalized via a reference tile.
     """
 
-    auto_ratio = np.empty([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
+    # Tiles without an auto-correlation keep their gain
+    auto_ratio = np.ones([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
     # This should be possible to Vectorize if it's slow
     for pol_i in range(cal["n_pol"]):
         # fhd_struct_init_cal puts the ref_antenna as 1 if it's not set, which is never appears to be
-- 
2.43.0


From bb7ac88f26ea0466377e635539b0ff2307cc1dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 021/112] fix: cal_auto_ratio_divide took the reference from
 another tile when some auto-correlations are missing

---
 PyFHD/calibration/calibration_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 2d84181..4553c89 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1584,7 +1584,8 @@ def cal_auto_ratio_divide(
     # This should be possible to Vectorize if it's slow
     for pol_i in range(cal["n_pol"]):
         # fhd_struct_init_cal puts the ref_antenna as 1 if it's not set, which is never appears to be
-        v0 = vis_auto[pol_i, :, auto_tile_i[cal["ref_antenna"]]]
+        # vis_auto is ordered by auto-correlation, so find the one of the reference antenna
+        v0 = vis_auto[pol_i, :, np.argmax(auto_tile_i == cal["ref_antenna"])]
         auto_ratio[pol_i, :, auto_tile_i] = np.sqrt(
             vis_auto[pol_i, :, np.arange(auto_tile_i.size)] * weight_invert(v0)
         )
-- 
2.43.0


From ca7ed0501f73a08059bb197a8d3a6e738ac1ce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 022/112] fix: vis_cal_auto_fit summed uninitialised slopes and
 failed for one polarization

---
 PyFHD/calibration/calibration_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 4553c89..43b0138 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1303,8 +1303,8 @@ def vis_cal_auto_fit(
         vis_auto[: cal["n_pol"]] * weight_invert(vis_auto_model[: cal["n_pol"]])
     )
     gain_cross = cal["gain"]
-    fit_slope = np.empty((cal["n_pol"], obs["n_tile"]))
-    fit_offset = np.empty_like(fit_slope)
+    fit_slope = np.zeros((cal["n_pol"], obs["n_tile"]))
+    fit_offset = np.zeros_like(fit_slope)
 
     # Didn't vectorize as the polyfit won't be vectorized
     for pol_i in range(cal["n_pol"]):
@@ -1340,7 +1340,7 @@ def vis_cal_auto_fit(
             fit_slope[pol_i, tile_idx] = fit_single[0]
             fit_offset[pol_i, tile_idx] = fit_single[1]
     cal["auto_scale"] = np.sum(fit_slope, axis=1) / auto_tile_i.size
-    cal["auto_params"] = np.empty([cal["n_pol"], cal["n_pol"], obs["n_tile"]])
+    cal["auto_params"] = np.empty([2, cal["n_pol"], obs["n_tile"]])
     cal["auto_params"][0, :, :] = fit_offset
     cal["auto_params"][1, :, :] = fit_slope
     return cal
-- 
2.43.0


From 2ed536f6d7ce1bcf9ae20c0bcc8089039d4027a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 023/112] fix: vis_calibration_apply used a missing key with
 four polarizations

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 43b0138..ed7f493 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1430,10 +1430,10 @@ def vis_calibration_apply(
             # Use the xx flags (yy should be identitical at this point)
 
             # this is num baselines per time step
-            n_baselines = int(len(tile_a_i) / obs["n_times"])
+            n_baselines = int(len(tile_a_i) / obs["n_time"])
             # reshape from (n_freq, n_baselines*n_times) to (n_freq, n_times, n_baselines). Turns out due to the row major vs col major difference
             # between IDL and python, this shape also changes
-            new_shape = (obs["n_freq"], obs["n_times"], n_baselines)
+            new_shape = (obs["n_freq"], obs["n_time"], n_baselines)
             weights_use = np.reshape(vis_weights[0, :, :], new_shape)
             # carried over from FHD code
             weights_use = np.maximum(weights_use, np.zeros_like(weights_use))
-- 
2.43.0


From 13bed36c7ec0f16cb8c4c24b5c7541f41a9b7644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 024/112] fix: vis_calibration_apply fitted the cross
 polarization phase but never applied it

---
 PyFHD/calibration/calibration_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index ed7f493..ddadac6 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1420,6 +1420,7 @@ def vis_calibration_apply(
     # We haven't run FHD in a way that uses 4 pols yet so this is all
     # untested
     if n_pol_vis == 4:
+        cross_phase = 0
         if type(vis_model_arr) == np.ndarray and type(vis_weights) == np.ndarray:
             # This if statement replaces vis_calibrate_crosspol_phase
             # as this was the only place where the function was used
@@ -1470,8 +1471,8 @@ def vis_calibration_apply(
 
             cal["cross_phase"] = cross_phase
 
-        vis_arr[2, :, :] *= np.exp(1j * 0)
-        vis_arr[3, :, :] *= np.exp(-1j * 0)
+        vis_arr[2, :, :] *= np.exp(1j * cross_phase)
+        vis_arr[3, :, :] *= np.exp(-1j * cross_phase)
 
     return vis_arr, cal
 
-- 
2.43.0


From 0039eacf1e29490610f43f61f7f82f8809197b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 025/112] fix: calibrate passed obs and cal to vis_cal_polyfit
 in the wrong order

---
 PyFHD/calibration/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibrate.py b/PyFHD/calibration/calibrate.py
index 565a3c5..6084529 100644
--- a/PyFHD/calibration/calibrate.py
+++ b/PyFHD/calibration/calibrate.py
@@ -125,7 +125,7 @@ def calibrate(
         if pyfhd_config["auto_ratio_calibration"]:
             cal = cal_auto_ratio_remultiply(cal, auto_ratio, auto_tile_i)
     elif pyfhd_config["calibration_polyfit"]:
-        cal = vis_cal_polyfit(cal, obs, None, pyfhd_config, logger)
+        cal = vis_cal_polyfit(obs, cal, None, pyfhd_config, logger)
 
     # Get the gain residuals
     if pyfhd_config["calibration_auto_fit"]:
-- 
2.43.0


From aebd25627da310bc11816836b8b10bd0760ea61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 026/112] fix: vis_cal_polyfit replaced a requested zeroth
 order fit by the default order

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index ddadac6..e4287be 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -908,9 +908,9 @@ def vis_cal_polyfit(
     tile_use = np.where(obs["baseline_info"]["tile_use"])[0]
 
     # If the amp_degree or phase_degree weren't used, then apply the defaults
-    if not pyfhd_config["cal_amp_degree_fit"]:
+    if pyfhd_config["cal_amp_degree_fit"] is None:
         pyfhd_config["cal_amp_degree_fit"] = 2
-    if not pyfhd_config["cal_phase_degree_fit"]:
+    if pyfhd_config["cal_phase_degree_fit"] is None:
         pyfhd_config["cal_phase_degree_fit"] = 1
 
     # If you wish to find any steps that are outliers beyond 5sigma, and remove them add that code here.
-- 
2.43.0


From a5e791ee297215eebd1f6a930a76cb97052b1081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 027/112] fix: vis_cal_polyfit left the highest order out of
 the amplitude fit and failed on zero gains

---
 PyFHD/calibration/calibration_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index e4287be..598d328 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -991,15 +991,18 @@ def vis_cal_polyfit(
                     )
             # Fit for amplitude
             else:
-                fit_params = (
+                fit_coef = (
                     np.polynomial.Polynomial.fit(
                         freq_use, gain, deg=pyfhd_config["cal_amp_degree_fit"]
                     )
                     .convert()
                     .coef
                 )
+                # convert drops trailing coefficients which are exactly zero
+                fit_params = np.zeros(pyfhd_config["cal_amp_degree_fit"] + 1)
+                fit_params[: fit_coef.size] = fit_coef
                 cal["amp_params"][pol_i, tile_i, :] = fit_params
-                for di in range(pyfhd_config["cal_amp_degree_fit"]):
+                for di in range(fit_params.size):
                     gain_fit += fit_params[di] * np.arange(obs["n_freq"]) ** di
 
             gain_residual[pol_i, :, tile_i] = gain_amp[:, tile_i] - gain_fit
-- 
2.43.0


From 86eb21ebcb594857937a7a6cdbc25cd3d2c699e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 028/112] fix: vis_cal_polyfit evaluated the fit below the
 digital gain jump one channel off

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 598d328..a578651 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -971,7 +971,7 @@ def vis_cal_polyfit(
                     )
                     for di in range(pyfhd_config["cal_amp_degree_fit"]):
                         gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
-                            np.arange(freq_use[f_d]) ** di
+                            np.arange(freq_use[0], freq_use[f_d] + 1) ** di
                         )
                         gain_fit[freq_use[f_d + 1] : freq_use[f_end - 1] + 1] += (
                             fit_params2[di]
-- 
2.43.0


From 82333716300ae605aed817727380c62fe5673e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 029/112] fix: vis_cal_polyfit could only store the fits around
 the digital gain jump for second order

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index a578651..02ed3fc 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -925,7 +925,7 @@ def vis_cal_polyfit(
             (
                 cal["n_pol"],
                 obs["n_tile"],
-                pyfhd_config["cal_amp_degree_fit"],
+                2,
                 pyfhd_config["cal_amp_degree_fit"],
             )
         )
-- 
2.43.0


From 785bd5a6d7f8402721007667d979d52db60955b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 030/112] fix: vis_cal_polyfit raised TypeError with cable
 reflections from a file

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 02ed3fc..671c84d 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1050,7 +1050,7 @@ def vis_cal_polyfit(
             mode_i_arr[1, :] = tile_mode_Y * tile_ref_flag
 
             amp_arr = np.vstack([tile_amp_X, tile_amp_Y])
-            phase_arr = np.vstack[[tile_phase_X, tile_phase_Y]]
+            phase_arr = np.vstack([tile_phase_X, tile_phase_Y])
 
         elif pyfhd_config["cal_reflection_mode_theory"]:
             logger.info(
-- 
2.43.0


From b9371588a483e3785c738caf30a48a1d8cf3bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 031/112] fix: vis_cal_polyfit took the delay spectrum over
 tiles instead of frequency

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 671c84d..c898e59 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1094,7 +1094,7 @@ def vis_cal_polyfit(
             for pol_i in range(cal["n_pol"]):
                 for ti in range(tile_use.size):
                     tile_i = tile_use[ti]
-                    spec0 = np.abs(np.fft.fftn(gain_residual[pol_i, tile_i]))
+                    spec0 = np.abs(np.fft.fftn(gain_residual[pol_i, :, tile_i]))
                     mode_test += spec0[spec_inds]
             psf_mask = np.zeros(obs["n_freq"] // 2)
 
-- 
2.43.0


From 6df8c80409b038f7b7c5382156a7d7f0ffedcbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 032/112] fix: vis_cal_polyfit did not normalise the fitted
 reflection amplitude

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index c898e59..d5db1fa 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1233,7 +1233,7 @@ def vis_cal_polyfit(
                             np.exp(1j * 2 * np.pi / obs["n_freq"] * mode_i * freq_use)
                             * gain_arr[freq_use, tile_i]
                         )
-                        amp_use = np.abs(mode_fit) / freq_use[0].size
+                        amp_use = np.abs(mode_fit) / freq_use.size
                         phase_use = np.arctan2(mode_fit.imag, mode_fit.real)
 
                     gain_mode_fit = amp_use * np.exp(
-- 
2.43.0


From cbb9b4baa953071211f240068fef84b8d20a260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 033/112] fix: vis_cal_polyfit zeroed or failed on gains
 instead of the announced full band fit away from the digital gain jump

---
 PyFHD/calibration/calibration_utils.py | 83 ++++++++++++++------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index d5db1fa..4d949f9 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -920,7 +920,17 @@ def vis_cal_polyfit(
     gain_residual = np.empty((cal["n_pol"], obs["n_freq"], obs["n_tile"]))
     # create amp_params with the shape of (n_pol, n_tile, amp_degree + 1)
     # If we're using the digital_gain_jump_polyfit add extra dimension to amp_params
-    if pyfhd_config["digital_gain_jump_polyfit"]:
+    digital_gain_jump = pyfhd_config["digital_gain_jump_polyfit"]
+    if digital_gain_jump:
+        n_pre_jump = np.count_nonzero(
+            obs["baseline_info"]["freq"][freq_use] < 187.515e6
+        )
+        if n_pre_jump == 0 or n_pre_jump == freq_use.size:
+            logger.warning(
+                "digital_gain_jump_polyfit only works with highband mwa data. Full band polyfit applied instead."
+            )
+            digital_gain_jump = False
+    if digital_gain_jump:
         cal["amp_params"] = np.empty(
             (
                 cal["n_pol"],
@@ -944,51 +954,46 @@ def vis_cal_polyfit(
             gain = np.squeeze(gain_amp[freq_use, tile_i])
             gain_fit = np.zeros(obs["n_freq"])
             # Pre and post digital gain jump separately for highband MWA data
-            if pyfhd_config["digital_gain_jump_polyfit"]:
+            if digital_gain_jump:
                 pre_dig_inds = np.where(
                     obs["baseline_info"]["freq"][freq_use] < 187.515e6
                 )
-                if pre_dig_inds[0].size > 0:
-                    f_d = np.max(pre_dig_inds[0])
-                    f_end = freq_use.size
-                    fit_params1 = (
-                        np.polynomial.Polynomial.fit(
-                            freq_use[0 : f_d + 1],
-                            gain[0 : f_d + 1],
-                            deg=pyfhd_config["cal_amp_degree_fit"] - 1,
-                        )
-                        .convert()
-                        .coef
+                f_d = np.max(pre_dig_inds[0])
+                f_end = freq_use.size
+                fit_params1 = (
+                    np.polynomial.Polynomial.fit(
+                        freq_use[0 : f_d + 1],
+                        gain[0 : f_d + 1],
+                        deg=pyfhd_config["cal_amp_degree_fit"] - 1,
                     )
-                    fit_params2 = (
-                        np.polynomial.Polynomial.fit(
-                            freq_use[f_d + 1 : f_end],
-                            gain[f_d + 1 : f_end],
-                            deg=pyfhd_config["cal_amp_degree_fit"] - 1,
-                        )
-                        .convert()
-                        .coef
+                    .convert()
+                    .coef
+                )
+                fit_params2 = (
+                    np.polynomial.Polynomial.fit(
+                        freq_use[f_d + 1 : f_end],
+                        gain[f_d + 1 : f_end],
+                        deg=pyfhd_config["cal_amp_degree_fit"] - 1,
                     )
-                    for di in range(pyfhd_config["cal_amp_degree_fit"]):
-                        gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
-                            np.arange(freq_use[0], freq_use[f_d] + 1) ** di
-                        )
-                        gain_fit[freq_use[f_d + 1] : freq_use[f_end - 1] + 1] += (
-                            fit_params2[di]
-                            * (
-                                np.arange(freq_use[f_end - 1] - freq_use[f_d + 1] + 1)
-                                + freq_use[f_d + 1]
-                            )
-                            ** di
+                    .convert()
+                    .coef
+                )
+                for di in range(pyfhd_config["cal_amp_degree_fit"]):
+                    gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
+                        np.arange(freq_use[0], freq_use[f_d] + 1) ** di
+                    )
+                    gain_fit[freq_use[f_d + 1] : freq_use[f_end - 1] + 1] += (
+                        fit_params2[di]
+                        * (
+                            np.arange(freq_use[f_end - 1] - freq_use[f_d + 1] + 1)
+                            + freq_use[f_d + 1]
                         )
-                    # Do notice this is saving the coefficients on a per row basis, so fit_params1 a,b will be [pol_i, tile_i, 0, :]
-                    # While fit_params2 a, b coefficients will be in [pol_i, tile_i, 1, :]
-                    fit_params = np.vstack([fit_params1, fit_params2])
-                    cal["amp_params"][pol_i, tile_i] = fit_params
-                else:
-                    logger.warning(
-                        "digital_gain_jump_polyfit only works with highband mwa data. Full band polyfit applied instead."
+                        ** di
                     )
+                # Do notice this is saving the coefficients on a per row basis, so fit_params1 a,b will be [pol_i, tile_i, 0, :]
+                # While fit_params2 a, b coefficients will be in [pol_i, tile_i, 1, :]
+                fit_params = np.vstack([fit_params1, fit_params2])
+                cal["amp_params"][pol_i, tile_i] = fit_params
             # Fit for amplitude
             else:
                 fit_coef = (
-- 
2.43.0


From bbe31bd215b1b0b560641d2477c429e64987b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 034/112] fix: vis_cal_polyfit failed on zero gains around the
 digital gain jump

---
 PyFHD/calibration/calibration_utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 4d949f9..c029068 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -978,6 +978,15 @@ def vis_cal_polyfit(
                     .convert()
                     .coef
                 )
+                # convert drops trailing coefficients which are exactly zero
+                fit_params1 = np.pad(
+                    fit_params1,
+                    (0, pyfhd_config["cal_amp_degree_fit"] - fit_params1.size),
+                )
+                fit_params2 = np.pad(
+                    fit_params2,
+                    (0, pyfhd_config["cal_amp_degree_fit"] - fit_params2.size),
+                )
                 for di in range(pyfhd_config["cal_amp_degree_fit"]):
                     gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
                         np.arange(freq_use[0], freq_use[f_d] + 1) ** di
-- 
2.43.0


From a3a18564f3d003be2c7b413802cd57942aef3beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 035/112] fix: vis_cal_polyfit stored uninitialised reflection
 parameters for tiles without a reflection

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index c029068..cd60972 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1142,7 +1142,7 @@ def vis_cal_polyfit(
                 tile_ref_flag[cable_cut] = 0
             mode_i_arr *= tile_ref_flag
 
-        cal["mode_params"] = np.empty([cal["n_pol"], obs["n_tile"], 3])
+        cal["mode_params"] = np.zeros([cal["n_pol"], obs["n_tile"], 3])
         for pol_i in range(cal["n_pol"]):
             # Divide the polyfit to reveal the residual cable reflections better
             gain_arr = og_gain_arr[pol_i] / cal["gain"][pol_i]
-- 
2.43.0


From 93a819caa5ed785bf8dece4887a953d24d6c78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 036/112] fix: vis_calibrate_subroutine raised IndexError when
 every tile has the same number of baselines

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 616ec74..d105e5e 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -289,7 +289,6 @@ def vis_calibrate_subroutine(
                 n_arr[tile_i] = inds.size
             # I suspect a list of lists maybe faster than the object array, check during optimization
             # Although I doubt it will make a huge difference.
-            A_ind_arr = np.array(A_ind_arr, dtype=object)
             # For tiles which don't satisfy the minimum number of solutions, pre-emptively set them to 0
             # in order to prevent certain failure in meeting strict convergence threshold
             inds_min_cal = np.where(n_arr < min_cal_solutions)[0]
-- 
2.43.0


From 21ffcdbc5dd79f43e5a55de85aab52fa639a97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 037/112] fix: vis_calibrate_subroutine never reached its check
 for less than one iteration

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index d105e5e..67a3d21 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -80,16 +80,16 @@ def vis_calibrate_subroutine(
     # maximum iterations to perform for the linear least-squares solver
     max_cal_iter = pyfhd_config["max_cal_iter"]
     # Leave a warning if its less than 5 iterations, or an Error if its less than 1
-    if max_cal_iter < 5:
+    if max_cal_iter < 1:
+        raise ValueError(
+            "max_cal_iter should be 1 or more. A max_cal_iter of 5 or more is recommended"
+        )
+    elif max_cal_iter < 5:
         warnings.warn(
             "At Least 5 calibrations iterations is recommended.\nYou're currently using {} iterations".format(
                 int(max_cal_iter)
             )
         )
-    elif max_cal_iter < 1:
-        raise ValueError(
-            "max_cal_iter should be 1 or more. A max_cal_iter of 5 or more is recommended"
-        )
     conv_thresh = pyfhd_config["cal_convergence_threshold"]
     use_adaptive_gain = pyfhd_config["cal_adaptive_calibration_gain"]
     base_gain = pyfhd_config["cal_base_gain"]
-- 
2.43.0


From ef4923baa228648728b849d7f3f1affc28bb901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 038/112] fix: vis_calibrate_subroutine raised IndexError for
 weighted baselines without a taper

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 67a3d21..4f0634b 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -191,7 +191,9 @@ def vis_calibrate_subroutine(
                 )
             else:
                 taper_max = 0
-            baseline_weights = np.maximum(1 - (taper_min + taper_max) ** 2, 0)
+            baseline_weights = np.broadcast_to(
+                np.maximum(1 - (taper_min + taper_max) ** 2, 0), dist_arr.shape
+            )
         else:
             flag_dist_cut = np.where(
                 (dist_arr < min_cal_baseline)
-- 
2.43.0


From 7b5cb01621969caa6b33f67bd5cea3ac4d729702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 039/112] fix: vis_calibrate_subroutine used the weights of
 other baselines in the weighted fit of a tile

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 4f0634b..b688fcc 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -266,11 +266,13 @@ def vis_calibrate_subroutine(
             weight2 = np.hstack([weight2, weight2])
             if calibration_weights:
                 baseline_wts2 = np.squeeze(baseline_weights[fi, baseline_use])
-                # Concatenate two of the same array, why?
+                # Concatenate two of the same array, one for each of vis_data2
                 baseline_wts2 = np.hstack([baseline_wts2, baseline_wts2])
 
             b_i_use = np.where(weight2 > 0)
             weight2 = weight2[b_i_use]
+            if calibration_weights:
+                baseline_wts2 = baseline_wts2[b_i_use]
             vis_data2 = vis_data2[b_i_use]
             vis_model2 = vis_model2[b_i_use]
 
@@ -310,12 +312,12 @@ def vis_calibrate_subroutine(
                     if n_arr[tile_i] >= min_cal_solutions:
                         if calibration_weights:
                             xmat = vis_model_matrix[A_ind_arr[tile_i]]
-                            # For some reason IDL multiplcation just allows two arrays of
-                            # very dissimilar sizes to be multiplied by just ignoring everything
-                            # after the index of the smallest one!?! Could be worth checking this is
-                            # what this line was meant to do.
+                            # Every equation gets the weight of its own baseline
                             xmat = xmat.flatten()
-                            xmat_dag = np.conj(xmat) * baseline_wts2[0 : xmat.size]
+                            xmat_dag = (
+                                np.conj(xmat)
+                                * baseline_wts2[A_ind_arr[tile_i]].flatten()
+                            )
                             gain_new[tile_i] = (
                                 1
                                 / np.dot(xmat, xmat_dag)
-- 
2.43.0


From 686e469269bdc3451a70d30955b472b8e3f6de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 040/112] fix: vis_calibrate_subroutine failed when the
 reference tile lacks solutions for a frequency

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index b688fcc..7879c9e 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -363,7 +363,7 @@ def vis_calibrate_subroutine(
                     gain_curr[np.where(np.isnan(gain_curr))] = gain_old[
                         np.where(np.isnan(gain_curr))
                     ]
-                if not no_ref_tile:
+                if not no_ref_tile and gain_curr[ref_tile_use] != 0:
                     gain_curr *= np.conj(gain_curr[ref_tile_use]) / np.abs(
                         gain_curr[ref_tile_use]
                     )
-- 
2.43.0


From 4d8d9d7a668988c7651348bdda783f72d38b017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 041/112] fix: vis_cal_bandpass divided by a zero bandpass, one
 frequency without gains turned all polynomial fits into NaN

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index cd60972..52654e4 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -808,7 +808,7 @@ def vis_cal_bandpass(
                     gain2_input = gain2[pol_i, :, :]
                     cal_bandpass_gain[pol_i] = gain2_input
                     # Set what will be passed back as the residual as the input gain divided by the final bandpass per cable type.
-                    gain3[freq_use, :] /= gain2_input[freq_use, :]
+                    gain3[freq_use, :] *= weight_invert(gain2_input[freq_use, :])
                     cal_remainder_gain[pol_i] = gain3
         # Add Levine Memo bandpass to the gain solutions here if you wish
     else:
@@ -838,7 +838,7 @@ def vis_cal_bandpass(
             # Vectorize later if possible
             for tile_i in range(obs["n_tile"]):
                 gain2[freq_use, tile_i] = bandpass_single
-                gain3[freq_use, tile_i] /= bandpass_single
+                gain3[freq_use, tile_i] *= weight_invert(bandpass_single)
 
             cal_bandpass_gain[pol_i, :, :] = gain2
             cal_remainder_gain[pol_i, :, :] = gain3
-- 
2.43.0


From 4530111f59b4eaff7ac712043a7cbf6d5c2b5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 042/112] fix: vis_cal_polyfit stored a constant phase in every
 phase parameter

---
 PyFHD/calibration/calibration_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 52654e4..e0b3a01 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1023,13 +1023,16 @@ def vis_cal_polyfit(
 
             # Fit for phase
             phase_use = np.unwrap(np.squeeze(gain_phase[freq_use, tile_i]))
-            phase_params = (
+            phase_coef = (
                 np.polynomial.Polynomial.fit(
                     freq_use, phase_use, pyfhd_config["cal_phase_degree_fit"]
                 )
                 .convert()
                 .coef
             )
+            # Trailing zero coefficients are trimmed by numpy
+            phase_params = np.zeros(pyfhd_config["cal_phase_degree_fit"] + 1)
+            phase_params[: phase_coef.size] = phase_coef
             cal["phase_params"][pol_i, tile_i, :] = phase_params
             phase_fit = np.zeros(obs["n_freq"])
             for di in range(phase_params.size):
-- 
2.43.0


From 88e272fbafe83643ff183b88f13943ca6a4058aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 043/112] fix: vis_baseline_hist raised ValueError when some
 model visibilities of a length bin are zero

---
 PyFHD/calibration/calibration_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index e0b3a01..715e126 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1545,6 +1545,7 @@ def vis_baseline_hist(
                 wh_noflag = np.where(np.abs(model_vals) > 0)[0]
                 if wh_noflag.size > 0:
                     inds = inds[wh_noflag]
+                    model_vals = model_vals[wh_noflag]
                 else:
                     continue
                 # if Keyword_Set(calibration_visibilities_subtract) THEN BEGIN
-- 
2.43.0


From 88b74eea13fd1f0ce888964708b4eda2df4bbadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 044/112] fix: vis_calibrate_subroutine raised
 UnboundLocalError when no frequency is usable

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 7879c9e..c693e54 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -433,7 +433,8 @@ def vis_calibrate_subroutine(
                 )
             del A_ind_arr
             gain_arr[fi, tile_use] = gain_curr
-        nan_i = np.where(np.isnan(gain_curr))[0]
+        # without any usable frequency there are no current gains to check
+        nan_i = np.where(np.isnan(gain_curr))[0] if freq_use.size > 0 else freq_use
         if nan_i.size > 0:
             # any gains with NANs -> all tiles for that freq will have NANs
             freq_nan_i = nan_i % n_freq
-- 
2.43.0


From d77664620cedd1f70369dbd19695d8b11645d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 045/112] fix: baseline_grid_locations swapped the sizes of the
 two axes of the uv grid

---
 PyFHD/gridding/gridding_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 69438e2..02b5c26 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -225,12 +225,12 @@ def baseline_grid_locations(
         baselines_dict["dx1dy1_arr"] = dx_arr * dy_arr
 
     # The minimum pixel in the uv-grid (bottom left of the kernel) that each baseline contributes to
-    xmin = (np.floor(xcen) + elements / 2 - (psf_dim / 2 - 1)).astype(np.int64)
-    ymin = (np.floor(ycen) + dimension / 2 - (psf_dim / 2 - 1)).astype(np.int64)
+    xmin = (np.floor(xcen) + dimension / 2 - (psf_dim / 2 - 1)).astype(np.int64)
+    ymin = (np.floor(ycen) + elements / 2 - (psf_dim / 2 - 1)).astype(np.int64)
 
     # Set the minimum pixel value of baselines which fall outside of the uv-grid tom -1 to exclude them
-    range_test_x_i = np.where((xmin <= 0) | (xmin + psf_dim - 1 >= elements - 1))
-    range_test_y_i = np.where((ymin <= 0) | (ymin + psf_dim - 1 >= dimension - 1))
+    range_test_x_i = np.where((xmin <= 0) | (xmin + psf_dim - 1 >= dimension - 1))
+    range_test_y_i = np.where((ymin <= 0) | (ymin + psf_dim - 1 >= elements - 1))
     if range_test_x_i[0].size > 0:
         xmin[range_test_x_i] = -1
         ymin[range_test_x_i] = -1
-- 
2.43.0


From 68a19feb6edaa947f91a3faf94dccaa88874c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 046/112] fix: visibility_grid used the kernels of other
 frequencies, sample indices were taken as baseline major

---
 PyFHD/gridding/visibility_grid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index 4632878..dfe0870 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -255,12 +255,13 @@ def visibility_grid(
         ymin_use = ymin.flat[ind0]
 
         # Find the frequency group per index
-        freq_i = inds % n_freq_use
+        # (the location arrays have the shape (frequencies, baselines))
+        freq_i = inds // bi_use.size
         fbin = freq_bin_i[freq_i]
 
         # Calculate the number of selected visibilities and their baseline index
         vis_n = bin_n[bin_i[bi]]
-        baseline_inds = bi_use_reduced[((inds / n_f_use) % n_baselines).astype(int)]
+        baseline_inds = bi_use_reduced[inds % bi_use.size]
 
         if interp_flag:
             # Calculate the interpolated kernel on the uv-grid given the derivatives to baseline locations
@@ -367,7 +368,7 @@ def visibility_grid(
                 # IDL had integer / integer i.e. 2015 / 336 == 5, used flooring divider instead in python
                 # ALso do take note that each were very close always within 0.01 of their next number.
                 # e.g. 2015 / 336 = 5.99, should ceiling be be used instead?
-                bt_index = inds // n_freq_use
+                bt_index = inds % bi_use.size
 
             box_matrix = np.zeros((vis_n, psf_dim3), dtype=arr_type)
             if pyfhd_config["beam_per_baseline"]:
-- 
2.43.0


From 2b7c69d10be378d60f2b569b5a14c08c730545a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 047/112] fix: visibility_grid raised ValueError for the
 spectral plane of a model

---
 PyFHD/gridding/visibility_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index dfe0870..7d75fa1 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -439,7 +439,7 @@ def visibility_grid(
                 )
                 spectral_model_A[
                     ymin_use : ymin_use + psf_dim, xmin_use : xmin_use + psf_dim
-                ] += term_Am_box
+                ].flat += term_Am_box
 
         if model is not None:
             # If model visibilities are being gridded, calculate the product of the model vis and the beam kernel
-- 
2.43.0


From 40775868788a47ce740ff563767675cfea253f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 048/112] fix: filter_uv_uniform passed the wrong arguments to
 visibility_count and did so without obs or params

---
 PyFHD/gridding/filters.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/PyFHD/gridding/filters.py b/PyFHD/gridding/filters.py
index 450aeff..3ebd066 100644
--- a/PyFHD/gridding/filters.py
+++ b/PyFHD/gridding/filters.py
@@ -16,6 +16,7 @@ def filter_uv_uniform(
     fi_use: NDArray[np.integer] | None = None,
     bi_use: NDArray[np.integer] | None = None,
     mask_mirror_indices: bool = False,
+    psf: dict | None = None,
 ) -> tuple[NDArray[np.complex128], NDArray[np.float64]]:
     """
     Perform uniform weighting in {u,v} space.
@@ -42,6 +43,8 @@ def filter_uv_uniform(
         Baseline index array for gridding, i.e even vs odd time stamps, by default None
     mask_mirror_indices : bool, optional
         Exclude baselines mirrored along the v-axis, by default False
+    psf : dict | None, optional
+        Beam dictionary, needed to count the visibilities from obs and params, by default None
 
     Returns
     -------
@@ -53,7 +56,7 @@ def filter_uv_uniform(
     Raises
     ------
     TypeError
-        In the case obs or params is None and vis_count is also None
+        In the case obs, psf or params is None and vis_count is also None
     """
 
     # If you need the name, grab it from pyfhd_config where needed
@@ -61,16 +64,16 @@ def filter_uv_uniform(
     # This does not make use of fine-grained flagging, but relies on coarse flags from the obs structure
     # (i.e. a list of tiles completely flagged, and of frequencies completely flagged)
     if vis_count is None:
-        if obs is not None or params is not None:
+        if obs is not None and psf is not None and params is not None:
             vis_count = gridding_utils.visibility_count(
                 obs,
+                psf,
                 params,
                 weights,
-                pyfhd_config,
                 logger,
-                fi_use,
-                bi_use,
-                mask_mirror_indices,
+                fi_use=fi_use,
+                bi_use=bi_use,
+                mask_mirror_indices=mask_mirror_indices,
             )
         elif weights is not None and np.size(weights) == np.size(image_uv):
             if np.max(weights) == 0:
@@ -78,7 +81,9 @@ def filter_uv_uniform(
             else:
                 vis_count = np.abs(weights) / np.min(np.abs(weights[weights > 0]))
         else:
-            raise TypeError("obs and params must not be None when vis_count is None")
+            raise TypeError(
+                "obs, psf and params must not be None when vis_count is None"
+            )
 
     # Get the parts of the filter we're using
     filter_use = weight_invert(vis_count, threshold=1)
-- 
2.43.0


From bcd00dbb7fdf1e2f76cd4818b8a084800f314d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 049/112] fix: dirty_image_generate modified the uv plane of
 the caller, exported uv weights were filtered

---
 PyFHD/gridding/gridding_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 02b5c26..8e7ab75 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -362,7 +362,8 @@ def dirty_image_generate(
 
     # dimension is columns, elements is rows
     elements, dimension = dirty_image_uv.shape
-    di_uv_use = dirty_image_uv
+    # the plane passed in is still needed by the caller, work on a copy
+    di_uv_use = dirty_image_uv.copy()
     # If the baseline threshold has been set
     if baseline_threshold is not None:
         if width_smooth is None:
-- 
2.43.0


From 1c10919530beeec01f9e3a3d45faef3e82d6d557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 050/112] fix: dirty_image_generate raised ValueError for uv
 planes that are not square

---
 PyFHD/gridding/gridding_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 8e7ab75..fb3238d 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -369,8 +369,8 @@ def dirty_image_generate(
         if width_smooth is None:
             width_smooth = np.floor(np.sqrt(dimension * elements) / 100)
         rarray = np.sqrt(
-            (meshgrid(dimension, 1) - dimension / 2) ** 2
-            + (meshgrid(elements, 2) - elements / 2) ** 2
+            (meshgrid(dimension, elements, 1) - dimension / 2) ** 2
+            + (meshgrid(dimension, elements, 2) - elements / 2) ** 2
         )
         # Get all the values that meet the threshold
         if baseline_threshold >= 0:
@@ -392,8 +392,9 @@ def dirty_image_generate(
         box_averages = convolve(mask_bt, Box2DKernel(kernel_width), mode="valid")
         # Since IDL SMOOTH edges by default are the edges of the array used, ignore edges (its the reason why we used a valid convolve)
         start = int(kernel_width // 2)
-        end = int(mask_bt.shape[1] - (kernel_width // 2))
-        mask_bt[start:end, start:end] = box_averages
+        end_rows = int(elements - (kernel_width // 2))
+        end_cols = int(dimension - (kernel_width // 2))
+        mask_bt[start:end_rows, start:end_cols] = box_averages
         # Apply boxed mask to the dirty image
         di_uv_use *= mask_bt
 
-- 
2.43.0


From 3f352b01b7f89c8ade858072a46fc31dd39d98d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 051/112] fix: create_obs used np.in1d which current numpy no
 longer has (AttributeError)

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index a5abab6..c320243 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -127,7 +127,7 @@ def create_obs(
     # from the uvfits antenna table
     all_ants = np.hstack([params["antenna1"], params["antenna2"]])
     all_ants = np.unique(all_ants)
-    if not (np.all(np.in1d(all_ants, layout["antenna_numbers"]))):
+    if not (np.all(np.isin(all_ants, layout["antenna_numbers"]))):
         logger.warning("Antenna arrays contain number(s) not found in antenna table")
 
     # fhd expects antenna1 and antenna2 arrays containing indices that are one-indexed.
-- 
2.43.0


From 7caa3f08a0ae4df2eaa853da8376e5b917a2ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 052/112] fix: create_obs raised TypeError for observations
 with a single time step

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index c320243..57a7a40 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -65,7 +65,7 @@ def create_obs(
     if obs["n_time"] > 1:
         bin_width[0 : obs["n_time"]] = b0i + 1
     else:
-        bin_width = time.size
+        bin_width[0] = time.size
     b0i_range = np.arange(1, obs["n_time"])
     bin_width[b0i_range] = b0i[b0i_range] - b0i[b0i_range - 1]
     baseline_info["bin_offset"] = np.zeros(obs["n_time"], dtype=np.int64)
-- 
2.43.0


From 26290eddd0aa79c280ba033666792a26b4d2f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 053/112] fix: create_obs renumbered antennas in place, tiles
 already renumbered were taken for other antennas

---
 PyFHD/data_setup/obs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 57a7a40..a3d8825 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -95,8 +95,9 @@ def create_obs(
 
     antenna_flag = True
     if np.max(params["antenna1"]) > 0 and (np.max(params["antenna2"]) > 0):
-        baseline_info["tile_a"] = params["antenna1"]
-        baseline_info["tile_b"] = params["antenna2"]
+        # Copies, as the antenna numbers are still required while the tile indices are assigned
+        baseline_info["tile_a"] = params["antenna1"].copy()
+        baseline_info["tile_b"] = params["antenna2"].copy()
         antenna_flag = False
     if antenna_flag:
         # 256 tile upper limit is hard-coded in CASA format
@@ -120,8 +121,8 @@ def create_obs(
             obs["n_tile"] = max(
                 np.max(baseline_info["tile_a"]), np.max(baseline_info["tile_b"])
             )
-        params["antenna1"] = baseline_info["tile_a"]
-        params["antenna2"] = baseline_info["tile_b"]
+        params["antenna1"] = baseline_info["tile_a"].copy()
+        params["antenna2"] = baseline_info["tile_b"].copy()
 
     # check that all elements in the antenna1 and antenna2 array exist in the antenna numbers
     # from the uvfits antenna table
-- 
2.43.0


From 6ff79c5c6fc82a191f26372f0d8c40684abc771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 054/112] fix: create_obs decoded the second antenna of a
 baseline like the first one

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index a3d8825..c883a9c 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -110,7 +110,7 @@ def create_obs(
         if (tile_B_test > 1) and (baseline_min % 2 == 1):
             antenna_mod_index /= 2 ** np.floor(np.log(np.min(tile_B_test)) / np.log(2))
         baseline_info["tile_a"] = np.floor(params["baseline_arr"] / antenna_mod_index)
-        baseline_info["tile_b"] = np.fix(params["baseline_arr"] / antenna_mod_index)
+        baseline_info["tile_b"] = np.fix(params["baseline_arr"] % antenna_mod_index)
         if (
             max(np.max(baseline_info["tile_a"]), np.max(baseline_info["tile_b"]))
             != obs["n_tile"]
-- 
2.43.0


From 85cef46760cb138b4b9fdd53a72cd5836b5cf0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 055/112] fix: create_obs ignored FoV, it was always
 overwritten by kbinsize or its default

---
 PyFHD/data_setup/obs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index c883a9c..6f24b56 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -163,9 +163,9 @@ def create_obs(
     max_baseline = max(np.max(np.abs(kx_arr)), np.max(np.abs(ky_arr)))
 
     # Determine the imaging parameters to use
-    if pyfhd_config["FoV"] is not None:
+    if pyfhd_config["FoV"]:
         obs["kpix"] = (180 / pi) / pyfhd_config["FoV"]
-    if pyfhd_config["kbinsize"] is None:
+    elif pyfhd_config["kbinsize"] is None:
         obs["kpix"] = 0.5
     else:
         obs["kpix"] = pyfhd_config["kbinsize"]
-- 
2.43.0


From 12deca9a13c6868de32f9aab57a2b05f9ddd17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 056/112] fix: create_obs raised KeyError or TypeError when the
 dimension is not set in the configuration

---
 PyFHD/data_setup/obs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 6f24b56..91e7de3 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -173,7 +173,7 @@ def create_obs(
     # Determine observation resolution/extent parameters given number of pixels in x direction (dimension)
     if pyfhd_config["dimension"] is None and pyfhd_config["elements"] is None:
         obs["dimension"] = 2 ** int(
-            (log10((2 * max_baseline) / pyfhd_config["kpix"]) / log10(2))
+            (log10((2 * max_baseline) / obs["kpix"]) / log10(2))
         )
         obs["elements"] = obs["dimension"]
     elif pyfhd_config["dimension"] is not None and pyfhd_config["elements"] is None:
@@ -188,7 +188,7 @@ def create_obs(
     # Ensure both dimension and elements are ints to prevent issues down the pipeline
     obs["dimension"] = int(obs["dimension"])
     obs["elements"] = int(obs["elements"])
-    obs["degpix"] = (180 / pi) / (obs["kpix"] * pyfhd_config["dimension"])
+    obs["degpix"] = (180 / pi) / (obs["kpix"] * obs["dimension"])
 
     # Set the max and min baseline
     max_baseline_inds = np.where(
-- 
2.43.0


From 4140e034fbd9c5dc3408d70128269e5c9ddc3e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 057/112] fix: create_obs used the time cuts as indices of
 themselves and real numbers as slices

---
 PyFHD/data_setup/obs.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 91e7de3..4a97f5e 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -209,21 +209,15 @@ def create_obs(
     # time cut is specified in seconds to cut (rounded up to next time integration point).
     # Specify negative time_cut to cut time off the end. Specify a vector to cut at both the start and end
     if pyfhd_config["time_cut"] is not None:
-        time_cut = pyfhd_config["time_cut"]
+        time_cut = np.atleast_1d(pyfhd_config["time_cut"])
         for ti in time_cut:
-            if time_cut[ti] < 0:
-                ti_start = min(
-                    obs["n_time"]
-                    - max(np.ceil(np.abs(time_cut[ti]) / meta["time_res"]), 0),
-                    obs["n_time"] - 1,
-                )
+            n_cut = int(np.ceil(np.abs(ti) / meta["time_res"]))
+            if ti < 0:
+                ti_start = max(obs["n_time"] - n_cut, 0)
                 ti_end = obs["n_time"] - 1
             else:
                 ti_start = 0
-                ti_end = min(
-                    np.ceil(np.abs(time_cut[ti])) / meta["time_res"] - 1,
-                    obs["n_time"] - 1,
-                )
+                ti_end = min(n_cut - 1, obs["n_time"] - 1)
             if ti_end >= ti_start:
                 baseline_info["time_use"][ti_start : ti_end + 1] = 0
     obs["n_time_flag"] = obs["n_time"] - np.sum(baseline_info["time_use"])
-- 
2.43.0


From bd57afc0b1a29a2a5c7fe1805de6ae0759e1e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 058/112] fix: read_metafits raised UnboundLocalError without a
 metafits file

---
 PyFHD/data_setup/obs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 4a97f5e..39475ea 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -351,6 +351,8 @@ def read_metafits(
         meta["phasera"] = pyfhd_header["obsra"]
         meta["phasedec"] = pyfhd_header["obsdec"]
         meta["delays"] = None
+        hdr = {}
+        data = None
 
     # Store an origin/target phase ra/dec
     meta["orig_phasera"] = (
-- 
2.43.0


From fd61ad9318855396879d829156f0fb0998aaeb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 059/112] fix: update_obs put the frequencies of the last bin
 into the first one

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 39475ea..b6648f1 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -522,7 +522,7 @@ def update_obs(
     freq_bin = beam_nfreq_avg * obs["freq_res"]
     freq_hist, _, freq_ri = histogram(obs["baseline_info"]["freq"], bin_size=freq_bin)
     freq_bin_i = np.zeros(obs["n_freq"], dtype=np.int64)
-    for bin in range(freq_hist.size - 1):
+    for bin in range(freq_hist.size):
         if freq_ri[bin] < freq_ri[bin + 1]:
             freq_bin_i[freq_ri[freq_ri[bin] : freq_ri[bin + 1]]] = bin
     # Adjust the obs dictionary based on the new dimension and kbinsize
-- 
2.43.0


From 1053213ecf2924a0d3f87ea5a8a9fdfb595ce691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 060/112] fix: extract_header took the first group parameter
 for a missing one and raised ValueError for missing ones

---
 PyFHD/data_setup/uvfits.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 7c38c33..01c604c 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -167,15 +167,17 @@ def extract_header(
     pyfhd_header["ant2_i"] = "ANTENNA2" in param_list
 
     if not pyfhd_header["ant1_i"] or not pyfhd_header["ant2_i"]:
-        pyfhd_header["baseline_i"] = param_list.index("BASELINE")
-        if not pyfhd_header["baseline_i"]:
+        if "BASELINE" in param_list:
+            pyfhd_header["baseline_i"] = param_list.index("BASELINE")
+        else:
             logger.error(
                 "Group parameter BASELINE (or ANTENNA1 and ANTENNA2) not found within uvfits params_header PTYPE keywords"
             )
             params_valid = False
 
-    pyfhd_header["date_i"] = param_list.index("DATE")
-    if not pyfhd_header["date_i"]:
+    if "DATE" in param_list:
+        pyfhd_header["date_i"] = param_list.index("DATE")
+    else:
         logger.error(
             "Group parameter DATE not found within uvfits params_header PTYPE keywords"
         )
-- 
2.43.0


From 14438192d9179110afd7296ea89bb676683349b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 061/112] fix: extract_header raised TypeError for unknown
 instruments

---
 PyFHD/data_setup/uvfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 01c604c..e5f29d1 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -111,7 +111,7 @@ def extract_header(
             f"Failed to load in the {pyfhd_config['instrument']} instrument location from astropy. If lon/lat/alt are not in the UVFITS things will fail."
         )
         # Can also do MWA or Murchison Widefield Array
-        location = EarthLocation("mwa")
+        location = EarthLocation.of_site("mwa")
 
     try:
         pyfhd_header["lon"] = params_header["lon"]
-- 
2.43.0


From afe8ab6a34557f753bec1deb17489340d5f77b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 062/112] fix: create_params guessed the baseline encoding from
 the smallest baseline, antennas were wrong without antenna 1

---
 PyFHD/data_setup/uvfits.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index e5f29d1..caa1737 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -263,18 +263,19 @@ def create_params(
             params["antenna2"] = params_data["ANTENNA2"]
         # Else calculate it from the baseline array
         else:
-            # Calculate antenna_mod_index to check for bad fits
+            # The UVFITS convention is 256 * antenna1 + antenna2 for up to 255 antennas
+            # and 2048 * antenna1 + antenna2 + 65536 for more
             params["baseline_arr"] = params_data["BASELINE"]
-            baseline_min = np.min(params["baseline_arr"])
-            exponent = np.log(np.min(baseline_min)) / np.log(2)
-            antenna_mod_index = 2 ** np.floor(exponent)
-            tile_B_test = np.min(baseline_min) % antenna_mod_index
-            if tile_B_test > 1:
-                if baseline_min % 2 == 1:
-                    antenna_mod_index /= 2 ** np.floor(np.log(tile_B_test) / np.log(2))
+            large = params["baseline_arr"] > 65536
+            offset = np.where(large, 65536, 0)
+            antenna_mod_index = np.where(large, 2048, 256)
             # Tile numbers start from 1
-            params["antenna1"] = np.floor(params["baseline_arr"] / antenna_mod_index)
-            params["antenna2"] = np.fix(params["baseline_arr"] % antenna_mod_index)
+            params["antenna1"] = np.floor(
+                (params["baseline_arr"] - offset) / antenna_mod_index
+            )
+            params["antenna2"] = np.fix(
+                (params["baseline_arr"] - offset) % antenna_mod_index
+            )
 
     except KeyError as error:
         logger.error(
-- 
2.43.0


From 2a4e4b5b44771986f2b15203fc7a6805edade810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 063/112] fix: extract_visibilities raised IndexError for one
 baseline, frequency or polarization

---
 PyFHD/data_setup/uvfits.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index caa1737..6c35078 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -319,7 +319,13 @@ def extract_visibilities(
     extract_header : Extracts the header from the UVFITS file and returns the header and data
     """
 
-    data_array = np.squeeze(params_data["DATA"])
+    # Remove the axes of length 1 between the baselines and the frequencies, the last axes
+    # are frequency, polarization and complex, these could have length 1 as well
+    data_array = params_data["DATA"]
+    data_array = np.squeeze(
+        data_array,
+        axis=tuple(i for i in range(1, data_array.ndim - 3) if data_array.shape[i] == 1),
+    )
     # Set the number of polarizations
     if pyfhd_config["n_pol"] == 0:
         n_pol = pyfhd_header["n_pol"]
-- 
2.43.0


From efa6bb865736cd4a527f020fea456c9bdb527dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 064/112] fix: create_layout raised AttributeError without
 antenna numbers and left out the last one

---
 PyFHD/data_setup/uvfits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 6c35078..6b90cde 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -541,10 +541,10 @@ def create_layout(
     try:
         layout["antenna_numbers"] = antenna_data["nosta"]
     except KeyError:
-        layout.warning(
+        logger.warning(
             "Antenna Numbers missing replacing with an array of numbers of range 1: n_antenna"
         )
-        layout["antenna_numbers"] = np.arange(1, layout["n_antenna"])
+        layout["antenna_numbers"] = np.arange(1, layout["n_antenna"] + 1)
 
     # Antenna Coordinates
     try:
-- 
2.43.0


From 0ab120d0723f2d53f008bd561bea424305e82996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:16 +0000
Subject: [PATCH 065/112] fix: create_layout did not set unknown leap seconds

---
 PyFHD/data_setup/uvfits.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 6b90cde..7c15152 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -503,6 +503,7 @@ def create_layout(
             logger.warning(
                 "Number of Leap Seconds is missing and the time system isn't IAT so we can't know the leap seconds, setting as -1"
             )
+            layout["nleap_sec"] = -1
 
     # Polarization Type
     try:
-- 
2.43.0


From f50d5de84411722fa2ba8969a44df60395d89f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 066/112] fix: create_params ignored the second DATE parameter,
 all samples of such files had the same time

---
 PyFHD/data_setup/uvfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 7c15152..9cda500 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -255,7 +255,8 @@ def create_params(
         params["vv"] = params_data["VV"].astype(np.float64)
         params["ww"] = params_data["WW"].astype(np.float64)
         # Astropy has already normalized the values by PZEROx, time in Julian
-        params["time"] = params_data["DATE"]
+        # The date can be split into two parameters, par adds them
+        params["time"] = params_data.par("DATE")
         # Get baseline and antenna arrays
         # The antenna arrays already exist then take those
         if pyfhd_header["ant1_i"] and pyfhd_header["ant2_i"]:
-- 
2.43.0


From 0ec07f8d66179e22fd36433adb0338e68bcfc511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 067/112] fix: load raised AttributeError for every file
 holding a string, no checkpoint could be loaded

---
 PyFHD/io/pyfhd_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 99f70d2..391a4bc 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -448,10 +448,10 @@ def load_dataset(
             value = dataset[()]
         else:
             value = dataset[:]
-        if value.dtype.kind == "S":
-            value = _decode_byte_arr(value)
         if isinstance(value, bytes):
             value = value.decode()
+        elif value.dtype.kind == "S":
+            value = _decode_byte_arr(value)
         return value
 
 
-- 
2.43.0


From 32953e7823cf7bb4e62cba8fd0ae60df6d82ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 068/112] fix: load raised ValueError for empty arrays of
 strings

---
 PyFHD/io/pyfhd_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 391a4bc..167df51 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -451,7 +451,8 @@ def load_dataset(
         if isinstance(value, bytes):
             value = value.decode()
         elif value.dtype.kind == "S":
-            value = _decode_byte_arr(value)
+            # Vectorized functions fail on empty arrays
+            value = _decode_byte_arr(value) if value.size > 0 else value.astype(str)
         return value
 
 
-- 
2.43.0


From 52c8b4237648ef2d19c16aea8f42788e30ece5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 069/112] fix: save raised TypeError for arrays without
 dimensions

---
 PyFHD/io/pyfhd_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 167df51..2293e67 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -246,7 +246,8 @@ def save_dataset(
                     shape=value.shape,
                     data=value,
                     dtype=value_dtype,
-                    compression="gzip",
+                    # HDF5 does not support compression for scalars
+                    compression="gzip" if value.ndim > 0 else None,
                 )
         case list():
             # Was easier to convert to a NumPy array to get vectorization
-- 
2.43.0


From 98ee9ef09f1867421d14751332c7d34c0e9e0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 070/112] fix: save raised TypeError for numpy strings

---
 PyFHD/io/pyfhd_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 2293e67..baa1881 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -279,8 +279,8 @@ def save_dataset(
             h5py_obj.create_dataset(
                 key, data=value, dtype=data_dtype, compression="gzip"
             )
-        case Path():
-            # If we find a Path object, convert it to a string
+        case Path() | str():
+            # If we find a Path object or a NumPy string, convert it to a string
             value = str(value)
             h5py_obj.create_dataset(key, data=value)
         case None:
-- 
2.43.0


From 60c7501f03eda1341ec38caa29722823e90563ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 071/112] fix: save raised AttributeError for lists of lists of
 different lengths

---
 PyFHD/io/pyfhd_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index baa1881..b77172a 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -270,7 +270,7 @@ def save_dataset(
                         )
                         value = np.array(value, dtype=object)
                         for i, arr in enumerate(value):
-                            value[i] = format_array(arr)
+                            value[i] = format_array(np.asarray(arr))
                         data_dtype = h5py.vlen_dtype(dtype_picker(value[0].dtype))
                     else:
                         logger.info(
-- 
2.43.0


From 88545151568b5a79f429a55178407cefcf40210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 072/112] fix: save raised AttributeError on ragged lists when
 no logger was given

---
 PyFHD/io/pyfhd_io.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index b77172a..58053dc 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -265,17 +265,19 @@ def save_dataset(
                     data_dtype = dtype_picker(value.dtype)
                 except ValueError as e:
                     if "inhomogeneous" in str(e):
-                        logger.warning(
-                            f"Failed to save {key} as an array as the list couldn't turn into a NumPy array, trying to save as a variable length array. Please add {key} to the variable_lengths dictionary in the save function in future."
-                        )
+                        if logger is not None:
+                            logger.warning(
+                                f"Failed to save {key} as an array as the list couldn't turn into a NumPy array, trying to save as a variable length array. Please add {key} to the variable_lengths dictionary in the save function in future."
+                            )
                         value = np.array(value, dtype=object)
                         for i, arr in enumerate(value):
                             value[i] = format_array(np.asarray(arr))
                         data_dtype = h5py.vlen_dtype(dtype_picker(value[0].dtype))
                     else:
-                        logger.info(
-                            f"You received an error not related to the array being inhomogeneous, Here's the error: {e}"
-                        )
+                        if logger is not None:
+                            logger.info(
+                                f"You received an error not related to the array being inhomogeneous, Here's the error: {e}"
+                            )
             h5py_obj.create_dataset(
                 key, data=value, dtype=data_dtype, compression="gzip"
             )
-- 
2.43.0


From 846e646e6d716afe008d8aff528e1c89740f15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 073/112] fix: healpix_cnv_apply lost contributions when a
 pixel occurs more than once, pixels at whole coordinates became zero

---
 PyFHD/healpix/healpix_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index b46edc8..3659166 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -50,7 +50,10 @@ def healpix_cnv_apply(
         i_use = hpx_cnv["i_use"][i]
         # Transpose is always True when used inside healpix_cnv_apply when using
         # sprsax2, so we can ignore the transpose keyword
-        hpx_map[hpx_cnv["ija"][i]] += hpx_cnv["sa"][i] * image_vector[i_use]
+        # The same HEALPix pixel can occur more than once per image pixel
+        np.add.at(
+            hpx_map, hpx_cnv["ija"][i], hpx_cnv["sa"][i] * image_vector[i_use]
+        )
     return hpx_map
 
 
-- 
2.43.0


From 6b0227a9b0d5577f3ad478ec25767c2d1bfc9d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 074/112] fix: healpix_cnv_generate swapped right ascension and
 declination when not restricted to a list of pixels (ValueError)

---
 PyFHD/healpix/healpix_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 3659166..f8e7088 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -178,7 +178,7 @@ def healpix_cnv_generate(
         cen_coords = ang2vec(obs["obsra"], obs["obsdec"], lonlat=True)
         hpx_inds = query_disc(nside, cen_coords, hpx_radius)
         pix_coords = np.vstack(pix2vec(nside, hpx_inds)).T
-        pix_dec, pix_ra = vec2ang(pix_coords, lonlat=True)
+        pix_ra, pix_dec = vec2ang(pix_coords, lonlat=True)
         xv_hpx, yv_hpx = radec_to_pixel(pix_ra, pix_dec, obs["astr"])
         # slightly more restrictive boundary here ('LT' and 'GT' instead of 'LE' and 'GE')
         pix_i_use = np.where(
-- 
2.43.0


From 78060bde856261e3795c50fe1d96ed83b84bf7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 075/112] fix: healpix_cnv_generate used the radius in degrees
 as radians and a real number of sides

---
 PyFHD/healpix/healpix_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index f8e7088..3d4835f 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -176,8 +176,8 @@ def healpix_cnv_generate(
         xv_hpx, yv_hpx = radec_to_pixel(pix_ra, pix_dec, obs["astr"])
     else:
         cen_coords = ang2vec(obs["obsra"], obs["obsdec"], lonlat=True)
-        hpx_inds = query_disc(nside, cen_coords, hpx_radius)
-        pix_coords = np.vstack(pix2vec(nside, hpx_inds)).T
+        hpx_inds = query_disc(int(nside), cen_coords, np.radians(hpx_radius))
+        pix_coords = np.vstack(pix2vec(int(nside), hpx_inds)).T
         pix_ra, pix_dec = vec2ang(pix_coords, lonlat=True)
         xv_hpx, yv_hpx = radec_to_pixel(pix_ra, pix_dec, obs["astr"])
         # slightly more restrictive boundary here ('LT' and 'GT' instead of 'LE' and 'GE')
-- 
2.43.0


From 6d84611c9a88bc28abf83fec478004bc5c4e07ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 076/112] fix: healpix_cnv_generate used real numbers as
 indices of the mask (IndexError), in the wrong order

---
 PyFHD/healpix/healpix_utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 3d4835f..bdd9cfd 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -186,13 +186,18 @@ def healpix_cnv_generate(
             & (xv_hpx < obs["dimension"] - 1)
             & (yv_hpx > 0)
             & (yv_hpx < obs["elements"] - 1)
-        )
+        )[0]
         xv_hpx = xv_hpx[pix_i_use]
         yv_hpx = yv_hpx[pix_i_use]
-        hpx_mask00 = mask[np.floor(xv_hpx), np.floor(yv_hpx)]
-        hpx_mask01 = mask[np.floor(xv_hpx), np.ceil(yv_hpx)]
-        hpx_mask10 = mask[np.ceil(xv_hpx), np.floor(yv_hpx)]
-        hpx_mask11 = mask[np.ceil(xv_hpx), np.ceil(yv_hpx)]
+        # Images are indexed by row (y) first
+        x_floor = np.floor(xv_hpx).astype(np.int64)
+        x_ceil = np.ceil(xv_hpx).astype(np.int64)
+        y_floor = np.floor(yv_hpx).astype(np.int64)
+        y_ceil = np.ceil(yv_hpx).astype(np.int64)
+        hpx_mask00 = mask[y_floor, x_floor]
+        hpx_mask01 = mask[y_ceil, x_floor]
+        hpx_mask10 = mask[y_floor, x_ceil]
+        hpx_mask11 = mask[y_ceil, x_ceil]
         hpx_mask = hpx_mask00 * hpx_mask01 * hpx_mask10 * hpx_mask11
         pix_i_use2 = np.nonzero(hpx_mask)
         xv_hpx = xv_hpx[pix_i_use2]
-- 
2.43.0


From ec01eed5bf6279d0fc5125deb50e1028854490e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 077/112] fix: healpix_cnv_generate took the altitudes of all
 pixels for those of the selected ones

---
 PyFHD/healpix/healpix_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index bdd9cfd..09ae28b 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -204,6 +204,8 @@ def healpix_cnv_generate(
         yv_hpx = yv_hpx[pix_i_use2]
         pix_i_use = pix_i_use[pix_i_use2]
         hpx_inds = hpx_inds[pix_i_use]
+        pix_ra = pix_ra[pix_i_use]
+        pix_dec = pix_dec[pix_i_use]
 
     # Test for pixels past the horizon. We don't need to be precise with this, so turn off precession, etc..
     # Get the location from instrument name
-- 
2.43.0


From f70691fc0848b78985cc1663b5f9d03f51b778c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 078/112] fix: beam_image_cube raised ValueError for
 frequencies given in Hz

---
 PyFHD/healpix/healpix_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 09ae28b..1f99c9f 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -363,8 +363,9 @@ def beam_image_cube(
 
     if np.median(freq_i_arr) > obs["n_freq"]:
         freq_i_use = np.interp(
-            np.arange(obs["n_freq"]), obs["baseline_info"]["freq"], freq_i_arr
+            freq_i_arr, obs["baseline_info"]["freq"], np.arange(obs["n_freq"])
         )
+        freq_i_use = np.rint(freq_i_use).astype(np.int64)
     else:
         freq_i_use = freq_i_arr
 
-- 
2.43.0


From 58637bbac75fd43577a45d1fc1c332aa5ba61c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 079/112] fix: phase_shift_uv_image was wrong for planes that
 are not square

---
 PyFHD/healpix/healpix_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 1f99c9f..2ded723 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -421,14 +421,14 @@ def phase_shift_uv_image(obs: dict) -> NDArray[np.complex128]:
         obs["phasera"] == obs["orig_phasera"]
         and obs["phasedec"] == obs["orig_phasedec"]
     ):
-        return np.ones([obs["dimension"], obs["elements"]], dtype=np.complex128)
+        return np.ones([obs["elements"], obs["dimension"]], dtype=np.complex128)
 
     x, y = radec_to_pixel(ra_use, dec_use, obs["astr"])
 
     # uv_mask is not applied in FHD examples or docs decided not to translate it, if you want it put it here
 
     dx = (x - (obs["dimension"] / 2)) * (2 * np.pi / obs["dimension"])
-    dy = (y - (obs["elements"] / 2)) * (2 * np.pi / obs["dimension"])
+    dy = (y - (obs["elements"] / 2)) * (2 * np.pi / obs["elements"])
 
     xvals = meshgrid(obs["dimension"], obs["elements"], 1) - (obs["dimension"] / 2)
     yvals = meshgrid(obs["dimension"], obs["elements"], 2) - (obs["elements"] / 2)
-- 
2.43.0


From 3b2a323d991ede4658bfd011db2c3a7b11428bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 080/112] fix: vis_model_freq_split took unflagged frequencies
 for unflagged baselines

---
 PyFHD/healpix/healpix_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 2ded723..9b3dc3a 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -523,12 +523,11 @@ def vis_model_freq_split(
     if bi_use is None:
         if obs["n_pol"] > 1:
             flag_test = np.maximum(np.maximum(vis_weights[0], vis_weights[1]), 0)
-            # Double check the axis used
-            flag_test = np.sum(flag_test, axis=1)
+            flag_test = np.sum(flag_test, axis=0)
             bi_use = np.where(flag_test > 0)[0]
         else:
             flag_test = np.maximum(vis_weights[0], 0)
-            flag_test = np.sum(flag_test, axis=1)
+            flag_test = np.sum(flag_test, axis=0)
             bi_use = np.where(flag_test > 0)[0]
 
     n_vis_use = 0
-- 
2.43.0


From a82d3a1e24a3a36090e32132fe341abbdb47990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 081/112] fix: vis_model_freq_split dropped the imaginary parts
 of uv planes without fft

---
 PyFHD/healpix/healpix_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 9b3dc3a..db48c10 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -509,10 +509,12 @@ def vis_model_freq_split(
         model_uv_arr = np.zeros(
             [nf, obs["dimension"], obs["dimension"]], dtype=np.complex128
         )
-    dirty_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    weights_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    variance_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    model_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
+    # Images are real, uv planes are complex
+    arr_type = np.float64 if fft else np.complex128
+    dirty_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    weights_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    variance_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    model_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
     vis_n_arr = np.zeros([nf])
     if pyfhd_config["rephase_weights"]:
         rephase_use = phase_shift_uv_image(obs)
-- 
2.43.0


From 795736d0ee5259e21fdc4328c17c67d6cf54a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 082/112] fix: healpix_snapshot_cube_generate raised
 UnboundLocalError without split_ps_export

---
 PyFHD/healpix/export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/export.py b/PyFHD/healpix/export.py
index 26a72c9..246ee8a 100644
--- a/PyFHD/healpix/export.py
+++ b/PyFHD/healpix/export.py
@@ -135,7 +135,9 @@ def healpix_snapshot_cube_generate(
         n_iter = 1
         uvf_name = [""]
         obs_out["vis_noise"] = vis_noise_calc(obs_out, vis_arr, vis_weights)
-        bi_use = np.zeros(1, dtype=np.int64)
+        vis_weights_use = vis_weights
+        # Use all the unflagged baselines
+        bi_use = [None]
 
     # Looks like this is set to False by default?
     residual_flag = obs_out["residual"]
-- 
2.43.0


From 72c30f40caee01fc8bc020e338a32e5981f412d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 083/112] fix: flag_model_visibilities took the wrong samples
 when some auto-correlations are missing

---
 PyFHD/source_modeling/vis_model_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 0c73a24..6a534c9 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -197,7 +197,7 @@ class _FlaggingInfoCounter(object):
         if self.num_autos == 0:
             self.num_autos_per_time = 0
         else:
-            self.num_autos_per_time = self.num_ants
+            self.num_autos_per_time = self.num_autos // self.num_times
 
         # indexes of the cross-correlations
         self.cross_locs = params["antenna1"] != params["antenna2"]
-- 
2.43.0


From cad49e4a13792b79ea0768af6a47985d3df460e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 084/112] fix: flag_model_visibilities raised ValueError when
 the model has auto-correlations

---
 PyFHD/source_modeling/vis_model_transfer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 6a534c9..2f58d34 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -410,7 +410,10 @@ def flag_model_visibilities(
     # check for where there is non_zeros. This previously check where they didn't
     # match but that resulted in us getting the indexes of the antenna arrays rather
     # than the baseline indexes
-    include_cross_per_time = np.nonzero(include_per_time)[0]
+    is_auto_per_time = (
+        flaginfo_model.ant1_single_time == flaginfo_model.ant2_single_time
+    )
+    include_cross_per_time = np.nonzero(include_per_time & ~is_auto_per_time)[0]
 
     # To get indexes of auto-correlations to use, ensure ant1 == ant2
     # These are now indexes of unflagged auto-correlations to grab from model
-- 
2.43.0


From 70bf26d664125e83b8c958cf7c98425f27f3e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 085/112] fix: flag_model_visibilities took other visibilities
 for auto-correlations when tiles are flagged

---
 PyFHD/source_modeling/vis_model_transfer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 2f58d34..e72ff8f 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -417,10 +417,7 @@ def flag_model_visibilities(
 
     # To get indexes of auto-correlations to use, ensure ant1 == ant2
     # These are now indexes of unflagged auto-correlations to grab from model
-    include_auto_per_time = np.where(
-        flaginfo_model.ant1_single_time[include_per_time]
-        == flaginfo_model.ant2_single_time[include_per_time]
-    )[0]
+    include_auto_per_time = np.nonzero(include_per_time & is_auto_per_time)[0]
 
     # empty holder for the flagged model - this should be the same shape
     vis_model_arr_flagged = np.zeros(
-- 
2.43.0


From b9b011a8ed7895e4fb9bc5df3fe5665947ff833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 086/112] fix: flag_model_visibilities raised ValueError when
 only the model has auto-correlations

---
 PyFHD/source_modeling/vis_model_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index e72ff8f..96a0ab8 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -441,7 +441,7 @@ def flag_model_visibilities(
         vis_model_arr_flagged[:, :, t_flag_inds] = vis_model_arr[:, :, t_model_inds]
 
         # If we're doing autocorrelations, jam them in as well
-        if include_autos:
+        if include_autos and flaginfo_data.num_autos > 0:
             t_flag_inds = (
                 t_data_ind * flaginfo_data.num_visi_per_time_step
                 + flaginfo_data.auto_locs_per_time
-- 
2.43.0


From fe379b24ae42a46c0ea8761a530c638808e881ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 087/112] fix: flag_model_visibilities moved the model times
 further away when they are later than the data

---
 PyFHD/source_modeling/vis_model_transfer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 96a0ab8..a07e858 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -269,9 +269,10 @@ def flag_model_visibilities(
     # be consistently offset because of QUACK time
     time_offsets = []
     for time in flaginfo_data.unique_times:
+        differences = time - flaginfo_model.unique_times
         # convert from julian to seconds via 24*60*60
         time_offsets.append(
-            np.min(np.abs(flaginfo_model.unique_times - time)) * (24.0 * 60 * 60)
+            differences[np.argmin(np.abs(differences))] * (24.0 * 60 * 60)
         )
 
     # The highest time resolution data we'll be dealing with. If the offset is
@@ -282,7 +283,7 @@ def flag_model_visibilities(
     # Try to ascertain is the model is offset in time from the data
     # Only believe an offset to an accuracy of 0.25, so round to two decimal
     # places. Here we are essentially trying to divine the QUACK time
-    rounded_offset = np.round(np.mean(time_offsets), 2)
+    rounded_offset = np.round(np.mean(np.abs(time_offsets)), 2)
 
     # If offset is big enough to be real, but smaller than half an integration
     # that add the `rounded_offset` (our calculated QUACK time) to the model
@@ -291,6 +292,9 @@ def flag_model_visibilities(
         rounded_offset >= min_integration / 2.0
         and rounded_offset <= obs["time_res"] / 2.0
     ):
+        # The model can only be later than the data by less than half an integration
+        if np.max(time_offsets) < 0 and rounded_offset < obs["time_res"] / 2.0:
+            rounded_offset = -rounded_offset
         flaginfo_model.unique_times += rounded_offset / (24.0 * 60 * 60)
 
     logger.warning(
-- 
2.43.0


From e98917f1b9b6f4b094cb954f196eeae3be0412e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 088/112] fix: radec_to_pixel raised TypeError for arrays of
 one position

---
 PyFHD/pyfhd_tools/unit_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/unit_conv.py b/PyFHD/pyfhd_tools/unit_conv.py
index 0fd9a00..bd2a5f5 100644
--- a/PyFHD/pyfhd_tools/unit_conv.py
+++ b/PyFHD/pyfhd_tools/unit_conv.py
@@ -148,7 +148,7 @@ def radec_to_pixel(ra: float, dec: float, astr: dict) -> tuple[float, float]:
         SkyCoord(ra=ra * u.deg, dec=dec * u.deg, frame=astr["radecsys"].lower())
     )
     # AstroPy returns values as an array, cast to float
-    if np.size(x) == 1:
+    if np.ndim(x) == 0:
         return float(x), float(y)
     else:
         return x, y
-- 
2.43.0


From df8114730532954bec21c08c138bffce0761024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 089/112] fix: main raised KeyError when resuming from the
 calibration checkpoint

---
 PyFHD/pyfhd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index add0cf3..9cf09da 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -338,7 +338,7 @@ def main():
                 )
     else:
         # Load the calibration checkpoint
-        if pyfhd_config["calibration_checkpoint"]:
+        if pyfhd_config["calibrate_checkpoint"]:
             cal_checkpoint = load(pyfhd_config["calibrate_checkpoint"], logger=logger)
             obs = cal_checkpoint["obs"]
             params = cal_checkpoint["params"]
-- 
2.43.0


From ae2e77ab6f9e593b48c98416f07e9c25efda0e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 090/112] fix: main raised KeyError when saving weights without
 visibilities

---
 PyFHD/pyfhd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 9cf09da..a5f1944 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -132,11 +132,13 @@ def main():
         )
 
         # Save the raw visibilities and weights if the option is set
-        if pyfhd_config["save_visibilities"]:
+        if pyfhd_config["save_visibilities"] or pyfhd_config["save_weights"]:
             pyfhd_config["visibilities_path"] = Path(
                 pyfhd_config["output_dir"], "visibilities"
             )
             pyfhd_config["visibilities_path"].mkdir(exist_ok=True)
+
+        if pyfhd_config["save_visibilities"]:
             raw_vis_arr_path = Path(
                 pyfhd_config["visibilities_path"],
                 f"{pyfhd_config['obs_id']}_raw_vis_arr.h5",
-- 
2.43.0


From b17257afbe68c13bc4ad1b50171f3b9c5af69706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 091/112] fix: main raised UnboundLocalError for images or
 cubes without calibration

---
 PyFHD/pyfhd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index a5f1944..43c69db 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -267,6 +267,7 @@ def main():
         # Skipped initializing the cal structure as it mostly just copies values from the obs, params, config and the skymodel from FHD
         # However, there is resulting cal structure for logging and output purposes to store the resulting gain and any other associated
         # arrays
+        cal = {}
         if pyfhd_config["calibrate_visibilities"]:
             logger.info("Beginning Calibration")
             cal_start = time.time()
-- 
2.43.0


From eebb7c2167183bbd3d797f5da44257a524afe683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 092/112] fix: main lost the numbers of gridded visibilities
 when resuming from the gridding checkpoint

---
 PyFHD/pyfhd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 43c69db..fec3d05 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -470,6 +470,7 @@ def main():
                 "weights_uv": weights_uv,
                 "variance_uv": variance_uv,
                 "uniform_filter_uv": uniform_filter_uv,
+                "nf_vis": obs["nf_vis"],
             }
             if vis_model_arr is not None:
                 checkpoint["model_uv"] = model_uv
@@ -494,6 +495,8 @@ def main():
             weights_uv = grid_checkpoint["weights_uv"]
             variance_uv = grid_checkpoint["variance_uv"]
             uniform_filter_uv = grid_checkpoint["uniform_filter_uv"]
+            if "nf_vis" in grid_checkpoint:
+                obs["nf_vis"] = grid_checkpoint["nf_vis"]
             if "model_uv" in grid_checkpoint:
                 model_uv = grid_checkpoint["model_uv"]
             logger.info(
-- 
2.43.0


From fd501a80685710d3df66ea0da5043ed6f7ab560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 093/112] fix: healpix_snapshot_cube_generate made planes
 without pixels by default (ps_kspan is 0 when it is not set)

---
 PyFHD/healpix/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/healpix/export.py b/PyFHD/healpix/export.py
index 246ee8a..9c3c8d9 100644
--- a/PyFHD/healpix/export.py
+++ b/PyFHD/healpix/export.py
@@ -70,7 +70,7 @@ def healpix_snapshot_cube_generate(
 
     fov_use = (180 / np.pi) / kbinsize
 
-    if pyfhd_config["ps_kspan"] is not None:
+    if pyfhd_config["ps_kspan"]:
         dimension_use = pyfhd_config["ps_kspan"] / kbinsize
     elif pyfhd_config["ps_dimension"] is not None:
         dimension_use = pyfhd_config["ps_dimension"]
-- 
2.43.0


From aa03d4265c3860f778e69deaef723f3266184497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 094/112] fix: pyfhd_setup raised KeyError for
 allow_sidelobe_model_sources

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index c84f8a2..1f3a0ca 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1452,7 +1452,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     # allow_sidelobe_model_sources depends on model_visibilities (Error)
     if (
         pyfhd_config["allow_sidelobe_model_sources"]
-        and not pyfhd_config["model_visibilities"]
+        and not pyfhd_config.get("model_visibilities")
     ):
         logger.error(
             "allow_sidelobe_model_sources shouldn't be True when model_visibilities is not, check if you meant to turn on model_visibilities"
-- 
2.43.0


From 79c3781ee6367906c1bafd753f12418509bb7088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 095/112] fix: pyfhd_setup refused enhance_eor with EoR
 visibilities and accepted it without

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 1f3a0ca..f45692a 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1520,7 +1520,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     errors += _check_file_exists(pyfhd_config, "eor_vis_filepath")
 
     # enhance_eor depends on eor_vis_filepath when its not 1
-    if pyfhd_config["enhance_eor"] > 1 and pyfhd_config["eor_vis_filepath"]:
+    if pyfhd_config["enhance_eor"] > 1 and not pyfhd_config["eor_vis_filepath"]:
         logger.error(
             "enhance_eor is only used when importing general visibilities for a simulation, it should stay as 1 when eor_vis_filepath is not being used"
         )
-- 
2.43.0


From deb6ab149723fb328d7c1e14da34e596db5770ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 096/112] fix: pyfhd_setup reported success to the shell when
 the configuration has errors

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index f45692a..52e701c 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1584,7 +1584,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
         # Close the handlers in the log
         for handler in logger.handlers:
             handler.close()
-        exit()
+        exit(1)
 
     if warnings:
         logger.warning(
-- 
2.43.0


From b885258f7f5a785b46ab4ff32d57775e743b30b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 097/112] fix: tile names given to flag-tiles,
 ps-tile-flag-list and tile-flag-list were split into letters

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 52e701c..68ca9fb 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -483,7 +483,7 @@ def pyfhd_parser():
         "-ft",
         "--flag-tiles",
         default=[],
-        type=list,
+        type=str,
         action="append",
         help="A list of tile names to manually flag. I repeat, a list of tile names, NOT tile indices",
     )
@@ -867,7 +867,8 @@ def pyfhd_parser():
     )
     sim.add_argument(
         "--tile-flag-list",
-        type=list,
+        type=str,
+        nargs="+",
         help="A string array of tile names to manually flag tiles. Note that this is an array of tile names, not tile indices!",
     )
     sim.add_argument(
@@ -928,7 +929,7 @@ def pyfhd_parser():
     )
     healpix.add_argument(
         "--ps-tile-flag-list",
-        type=list,
+        type=str,
         default=[],
         action="append",
         help="A list of tile names to manually flag in the healpix export. I repeat, a list of tile names, NOT tile indices.",
-- 
2.43.0


From 7b96687ab993b10cdd5d693870740d492ebd0c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 098/112] fix: time-cut was split into characters instead of
 read as seconds

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 68ca9fb..40d1bac 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -514,7 +514,8 @@ def pyfhd_parser():
     )
     flag.add_argument(
         "--time-cut",
-        type=list,
+        type=float,
+        nargs="+",
         default=None,
         help="Seconds to cut (rounded up to next time integration step) from the beginning of the observation. Can also specify a negative time to cut off the end of the observation. Specify a vector to cut at both the start and end.",
     )
-- 
2.43.0


From e850730add6554587fe04ab482ec6bb23082d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 099/112] fix: the written yaml configuration could not be fed
 back into pyfhd

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 40d1bac..530b583 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -81,7 +81,7 @@ def pyfhd_parser():
         commit = subprocess.run(
             ["git", "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True
         ).stdout
-        commit.replace("\n", "")
+        commit = commit.replace("\n", "")
     version_string = f"""\
     ________________________________________________________________________
     |    ooooooooo.               oooooooooooo ooooo   ooooo oooooooooo.    |
@@ -173,6 +173,7 @@ def pyfhd_parser():
         help="A proxy for the field of view in degrees. FoV is actually used to determine kbinsize, which will be set to !RaDeg/FoV.\nThis means that the pixel size at phase center times dimension is approximately equal to FoV, which is not equal to the actual field of view owing to larger pixel sizes away from phase center.\nIf set to 0, then kbinsize determines the UV resolution.",
     )
     parser.add_argument(
+        "--deproject-w-term",
         "--deproject_w_term",
         type=float,
         default=None,
@@ -187,7 +188,7 @@ def pyfhd_parser():
     parser.add_argument(
         "--memory-threshold",
         type=int,
-        default=1e8,
+        default=int(1e8),
         help="Set a memory threshold for each chunk in set in bytes. By default it is set at ~100MB",
     )
     parser.add_argument(
@@ -263,6 +264,7 @@ def pyfhd_parser():
         help="The file path of a calibration to be read-in, if you give a directory PyFHD expects there to be a file called <obs_id>_cal.hdf5 using the same observation as you plan to process.",
     )
     calibration.add_argument(
+        "--calibration-catalog-file-path",
         "--calibration_catalog-file-path",
         type=Path,
         default=None,
@@ -654,6 +656,7 @@ def pyfhd_parser():
         help="Optionally use the spectral index information to scale the uv-plane in gridding",
     )
     gridding.add_argument(
+        "--grid-psf-file",
         "--grid_psf_file",
         nargs="*",
         default=[],
@@ -968,35 +971,41 @@ def pyfhd_parser():
 
     # Temporary options to run IDL or use IDL outputs.
     pyIDL.add_argument(
+        "--IDL-calibrate",
         "--IDL_calibrate",
         default=False,
         action="store_true",
         help="Add to run the calibration stage, using IDL under the hood",
     )
     pyIDL.add_argument(
+        "--grid-IDL-outputs",
         "--grid_IDL_outputs",
         default=False,
         action="store_true",
         help="Add to run the python gridding code on calibrated IDL outputs",
     )
     pyIDL.add_argument(
+        "--IDL-healpix-gridded-outputs",
         "--IDL_healpix_gridded_outputs",
         default=False,
         action="store_true",
         help="Add to image gridded python outputs into a healpix projection, using IDL code",
     )
     pyIDL.add_argument(
+        "--IDL-output-dir",
         "--IDL_output_dir",
         default=None,
         help="If running on IDL outputs stored in a directory other than where the outputs of this run will be written, supply the path to the parent directory.",
     )
     pyIDL.add_argument(
+        "--IDL-dry-run",
         "--IDL_dry_run",
         default=False,
         action="store_true",
         help="Run all data checks and write .pro files, but don't actually run the IDL code. Good for checking the .pro files.",
     )
     pyIDL.add_argument(
+        "--IDL-variables-file",
         "--IDL_variables_file",
         default=None,
         help="Path to a file containing variables to feed directly into `FHD`. Each line should be as would appear in a `.pro` file used to run `FHD`. These lines will be written verbatim into the top-level `.pro` file used to call `FHD`. This means they will supercede duplicate keywords that might be defaults within `PyFHD`.",
@@ -1081,9 +1090,16 @@ def write_collated_yaml_config(
                 "log_time",
                 "commit",
                 "obs_id",
+                "config",
                 "config_file",
                 "grid_psf_file_sav",
                 "grid_psf_file_npz",
+                "output_dir",
+                "recalculate_mapfn",
+                "ring_radius",
+                "checkpoint_dir",
+                "visibilities_path",
+                "metadata_dir",
             ]:
                 pass
             else:
@@ -1100,16 +1116,18 @@ def write_collated_yaml_config(
                     if len(pyfhd_config[key]) == 0:
                         pass
                     else:
-                        line = f"{key} : ["
-                        line += f"'{pyfhd_config[key][0]}'"
-                        for item in pyfhd_config[key][1:]:
+                        items = [str(item).replace("'", "''") for item in pyfhd_config[key]]
+                        line = f"{yaml_key} : ["
+                        line += f"'{items[0]}'"
+                        for item in items[1:]:
                             line += f", '{item}'"
                         line += "]\n"
                         # for item in pyfhd_config[key]:
                         #     outfile.write(f"{key} : {item}\n")
                         outfile.write(line)
                 else:
-                    outfile.write(f"{yaml_key} : '{pyfhd_config[key]}'\n")
+                    value = str(pyfhd_config[key]).replace("'", "''")
+                    outfile.write(f"{yaml_key} : '{value}'\n")
 
 
 def pyfhd_logger(pyfhd_config: dict) -> Tuple[logging.Logger, Path]:
@@ -1148,7 +1166,7 @@ def pyfhd_logger(pyfhd_config: dict) -> Tuple[logging.Logger, Path]:
         commit = subprocess.run(
             ["git", "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True
         ).stdout
-        commit.replace("\n", "")
+        commit = commit.replace("\n", "")
 
     if pyfhd_config["description"] is None:
         log_name = "pyfhd_" + log_time
-- 
2.43.0


From d76724ef5bd34bf566021a84f73dcc9b807d1e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 100/112] fix: create_obs stopped with a TypeError when the
 number of tiles came from the baseline numbers

---
 PyFHD/data_setup/obs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index b6648f1..29cd2f6 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -118,8 +118,8 @@ def create_obs(
             logger.warning(
                 f"Mis-matched n_tiles Header: {obs['n_tile']}, Data: {max(np.max(baseline_info['tile_a']), np.max(baseline_info['tile_b']))}, adjusting n_tiles to be same as data"
             )
-            obs["n_tile"] = max(
-                np.max(baseline_info["tile_a"]), np.max(baseline_info["tile_b"])
+            obs["n_tile"] = int(
+                max(np.max(baseline_info["tile_a"]), np.max(baseline_info["tile_b"]))
             )
         params["antenna1"] = baseline_info["tile_a"].copy()
         params["antenna2"] = baseline_info["tile_b"].copy()
-- 
2.43.0


From c55c4b7a46c1df188ff59c5ce0abe7e7b37a21ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 101/112] fix: beam_image stopped with a TypeError for beams
 without gaussian parameters

---
 PyFHD/beam_setup/beam_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index a8d7244..e8f688b 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -125,10 +125,10 @@ def beam_image(
         freq_norm = freq_norm[:]
         pix_horizon = pix_horizon[0]
     dimension = elements = obs["dimension"]
-    xl = dimension / 2 - psf_dim / 2 + 1
-    xh = dimension / 2 - psf_dim / 2 + psf_dim
-    yl = elements / 2 - psf_dim / 2 + 1
-    yh = elements / 2 - psf_dim / 2 + psf_dim
+    xl = int(dimension / 2 - psf_dim / 2 + 1)
+    xh = int(dimension / 2 - psf_dim / 2 + psf_dim)
+    yl = int(elements / 2 - psf_dim / 2 + 1)
+    yh = int(elements / 2 - psf_dim / 2 + psf_dim)
 
     group_n, _, ri_id = histogram(group_id, min=0)
     gi_use = np.nonzero(group_n)
-- 
2.43.0


From 5416816d0732b8fb10bbaa300143d0fa9f0065ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 102/112] fix: beam_image used the kernel of the first
 polarization for every polarization

---
 PyFHD/beam_setup/beam_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index e8f688b..49d22d7 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -185,7 +185,7 @@ def beam_image(
             else:
                 for gi in range(n_groups):
                     beam_single += (
-                        psf["beam_ptr"][0, fbin, rbin, rbin] * group_n[gi_use[gi]]
+                        psf["beam_ptr"][pol_i, fbin, rbin, rbin] * group_n[gi_use[gi]]
                     ).reshape([psf_dim, psf_dim])
                 beam_single /= np.sum(group_n[gi_use])
                 if abs:
@@ -228,7 +228,7 @@ def beam_image(
             else:
                 for gi in range(n_groups):
                     beam_single += (
-                        psf["beam_ptr"][0, fbin, rbin, rbin] * group_n[gi_use[gi]]
+                        psf["beam_ptr"][pol_i, fbin, rbin, rbin] * group_n[gi_use[gi]]
                     ).reshape([psf_dim, psf_dim])
             beam_single /= np.sum(group_n[gi_use])
             beam_base_uv += beam_single
-- 
2.43.0


From d34717fb3f28108b334bda3aa111d5de9df02edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 103/112] fix: beam_image could not make the image of a single
 frequency unless squared

---
 PyFHD/beam_setup/beam_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 49d22d7..cf04a9a 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -149,7 +149,7 @@ def beam_image(
     n_bin_use = 0
     # We assume freq_i is an int when provided (i.e. a single frequency index)
     if freq_i is not None:
-        freq_i_use = freq_i
+        freq_i_use = np.atleast_1d(freq_i)
 
     if square:
         # Do note freq_i_use could be an integer or an array if freq_i is supplied or not
-- 
2.43.0


From b057ffe7c11920d9a44b9f7d76fd6601ac43c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 104/112] fix: the squared beam_image of several frequency bins
 added the beams of earlier bins to later ones

---
 PyFHD/beam_setup/beam_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index cf04a9a..9e40b6f 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -158,11 +158,11 @@ def beam_image(
         fbin_use = np.sort(np.unique(freq_bin_use))
         nbin = fbin_use.size
 
-        if beam_gaussian_params is not None:
-            beam_single = np.zeros([dimension, elements])
-        else:
-            beam_single = np.zeros([psf_dim, psf_dim], dtype=np.complex128)
         for bin_i in range(nbin):
+            if beam_gaussian_params is not None:
+                beam_single = np.zeros([dimension, elements])
+            else:
+                beam_single = np.zeros([psf_dim, psf_dim], dtype=np.complex128)
             fbin = fbin_use[bin_i]
             nf_bin = np.count_nonzero(freq_bin_use == fbin)
             if beam_gaussian_params is not None:
-- 
2.43.0


From aeaa0bfbb621f631e9e09f7ee74f0a846ffb869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 105/112] fix: beam_image stopped with a ValueError for beams
 with more than one group of baselines

---
 PyFHD/beam_setup/beam_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 9e40b6f..60c5af7 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -131,7 +131,7 @@ def beam_image(
     yh = int(elements / 2 - psf_dim / 2 + psf_dim)
 
     group_n, _, ri_id = histogram(group_id, min=0)
-    gi_use = np.nonzero(group_n)
+    gi_use = np.nonzero(group_n)[0]
     # Most likely going to be 1 as PyFHD does only one beam mostly
     n_groups = np.count_nonzero(group_n)
 
-- 
2.43.0


From c3aec160612cc6ab5a2c951cf35c969e1b0c1517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:24 +0000
Subject: [PATCH 106/112] fix: time averaged calibration lets a NaN sample
 without weight spoil its frequency's gains

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index c693e54..105b51e 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -150,8 +150,11 @@ def vis_calibrate_subroutine(
             vis_weight_use = np.maximum(vis_weight_use_reshaped, 0)
             vis_weight_use = np.minimum(vis_weight_use, 1)
             vis_model = np.reshape(vis_model_ptr[pol_i].T, shape).T
+            # Samples without weight do not contribute, not even when they are NaN
+            vis_model = np.where(vis_weight_use > 0, vis_model, 0)
             vis_model = np.sum(vis_model * vis_weight_use, axis=2)
             vis_measured = np.reshape(vis_arr[pol_i].T, shape).T
+            vis_measured = np.where(vis_weight_use > 0, vis_measured, 0)
             vis_avg = np.sum(vis_measured * vis_weight_use, axis=2)
             weight = np.sum(vis_weight_use, axis=2)
 
-- 
2.43.0


From 2cefd9722d60e9617dd1c1ad7ba4aff34b674c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:47 +0000
Subject: [PATCH 107/112] fix: load failed on a file whose only entry is a
 text, a scalar or a group

---
 PyFHD/io/pyfhd_io.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 58053dc..4606143 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -444,7 +444,7 @@ def load_dataset(
     """
     # If the corresponding attribute is True set the current
     # key to None as its an empty dataset
-    if h5py_obj.attrs[key]:
+    if h5py_obj.attrs.get(key, False):
         return None
     else:
         if dataset.shape == ():
@@ -521,13 +521,12 @@ def load(
     if lazy_load:
         return h5_file
     try:
-        if len(h5_file.keys()) == 1:
+        key = list(h5_file.keys())[0] if len(h5_file.keys()) == 1 else None
+        if key is not None and isinstance(h5_file[key], h5py.Dataset):
             # Assume that it contains only one numpy array, in which case read the array
-            key = list(h5_file.keys())[0]
             if logger:
                 logger.info(f"Loading {key} from {file_name} into an array")
-            array = h5_file[key][:]
-            return array
+            return load_dataset(h5_file, key, h5_file[key])
         else:
             return_dict = {}
             if logger:
-- 
2.43.0


From 81ced98632870626c022894ef6bb9b07d67cfd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:48 +0000
Subject: [PATCH 108/112] fix: beam_image_cube crashed when a beam is below the
 threshold at the centre

---
 PyFHD/healpix/healpix_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index db48c10..bceaa96 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -392,7 +392,9 @@ def beam_image_cube(
                 high=np.max(beam_single),
             )
             beam_mask1 = np.zeros([obs["dimension"], obs["elements"]])
-            beam_mask1.flat[beam_i] = 1
+            # Nothing is returned when the centre itself is below the threshold
+            if beam_i is not None:
+                beam_mask1.flat[beam_i] = 1
             beam_mask *= beam_mask1
     return beam_arr, beam_mask
 
-- 
2.43.0


From b5b28d3dd6a67f6a18ba7563f2932e81cb114853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:08 +0000
Subject: [PATCH 109/112] fix: flag_model_visibilities mixed up baselines when
 the model lists them in another order than the data

---
 PyFHD/source_modeling/vis_model_transfer.py | 31 ++++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index a07e858..180cad8 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -423,6 +423,31 @@ def flag_model_visibilities(
     # These are now indexes of unflagged auto-correlations to grab from model
     include_auto_per_time = np.nonzero(include_per_time & is_auto_per_time)[0]
 
+    # The data and the model may list the baselines of a time step in different orders,
+    # so take the samples of both in the order of their antenna indexes
+    data_ant1, data_ant2 = flaginfo_data.ant1_single_time, flaginfo_data.ant2_single_time
+    if np.max(flaginfo_data.ant_names) > len(obs["baseline_info"]["tile_names"]):
+        ant_index = {
+            ant_name: ant_ind + 1
+            for ant_ind, ant_name in enumerate(obs["baseline_info"]["tile_names"])
+        }
+        data_ant1 = np.array([ant_index.get(ant, ant) for ant in data_ant1])
+        data_ant2 = np.array([ant_index.get(ant, ant) for ant in data_ant2])
+
+    def by_antennas(inds, ant1, ant2):
+        return inds[np.lexsort((ant2[inds], ant1[inds]))]
+
+    model_ant1 = flaginfo_model.ant1_single_time
+    model_ant2 = flaginfo_model.ant2_single_time
+    include_cross_per_time = by_antennas(include_cross_per_time, model_ant1, model_ant2)
+    include_auto_per_time = by_antennas(include_auto_per_time, model_ant1, model_ant2)
+    data_cross_per_time = by_antennas(
+        flaginfo_data.cross_locs_per_time, data_ant1, data_ant2
+    )
+    data_auto_per_time = by_antennas(
+        flaginfo_data.auto_locs_per_time, data_ant1, data_ant2
+    )
+
     # empty holder for the flagged model - this should be the same shape
     vis_model_arr_flagged = np.zeros(
         (obs["n_pol"], obs["n_freq"], flaginfo_data.num_visis), dtype=np.complex128
@@ -434,8 +459,7 @@ def flag_model_visibilities(
 
         # Subset of cross-corrs from flagged model to select for this time step
         t_flag_inds = (
-            t_data_ind * flaginfo_data.num_visi_per_time_step
-            + flaginfo_data.cross_locs_per_time
+            t_data_ind * flaginfo_data.num_visi_per_time_step + data_cross_per_time
         )
         # Subset of cross-corrs from full model to select for this time step
         t_model_inds = (
@@ -447,8 +471,7 @@ def flag_model_visibilities(
         # If we're doing autocorrelations, jam them in as well
         if include_autos and flaginfo_data.num_autos > 0:
             t_flag_inds = (
-                t_data_ind * flaginfo_data.num_visi_per_time_step
-                + flaginfo_data.auto_locs_per_time
+                t_data_ind * flaginfo_data.num_visi_per_time_step + data_auto_per_time
             )
             t_model_inds = (
                 t_model_ind * flaginfo_model.num_visi_per_time_step
-- 
2.43.0


From 587eab3a05e4d7135d9d4cd4e6a77dbf5fd3a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:03 +0000
Subject: [PATCH 110/112] fix: save stored garbage for ragged lists of arrays
 of different types

---
 PyFHD/io/pyfhd_io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 4606143..040ea8e 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -272,7 +272,13 @@ def save_dataset(
                         value = np.array(value, dtype=object)
                         for i, arr in enumerate(value):
                             value[i] = format_array(np.asarray(arr))
-                        data_dtype = h5py.vlen_dtype(dtype_picker(value[0].dtype))
+                        # HDF5 stores the bytes of each array as they are, so they
+                        # must all have the type of the dataset
+                        array_dtype = np.result_type(*[arr.dtype for arr in value])
+                        array_dtype = dtype_picker(array_dtype) or array_dtype
+                        for i, arr in enumerate(value):
+                            value[i] = arr.astype(array_dtype)
+                        data_dtype = h5py.vlen_dtype(array_dtype)
                     else:
                         if logger is not None:
                             logger.info(
-- 
2.43.0


From dfef4e76dcee0de6531fc1c700e5a9fdc63d7e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 111/112] fix: recarray_to_dict truncated or repeated values of
 pointers to arrays of different types or sizes, and failed if the first was
 null

---
 PyFHD/io/pyfhd_io.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 040ea8e..5705957 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -593,13 +593,15 @@ def recarray_to_dict(data: np.recarray | dict) -> dict:
         # We found a single array with only None
         elif type(data[key]) == np.ndarray and isinstance(data[key][0], type(None)):
             # Get all the None values and turn them into NaNs
-            none_values = np.where(data[key] == None)
+            none_values = np.where(_is_none(data[key]))
             if np.size(none_values) > 0:
                 data[key][none_values] = np.nan
             # If all of the values were None, then set the array dtype to float64
             # (as we don't know what dtype it actually was), probably only relevant for testing
             if np.size(none_values) == np.size(data[key]):
                 data[key] = data[key].astype(np.float64)
+            elif any(type(x) == np.ndarray for x in data[key]):
+                data[key] = list(x for x in data[key])
         # Assume we found a string array since it's bytes, convert to a string list
         elif type(data[key]) == np.ndarray and isinstance(data[key].flat[0], bytes):
             data[key] = [x.decode().strip() for x in data[key]]
@@ -628,8 +630,14 @@ def recarray_to_dict(data: np.recarray | dict) -> dict:
                 # as we want to maintain the multidimensional nature of the data. So we'll create an
                 # array of the desired size using the shape of the first element.
                 elif data[key][0].dtype != object:
+                    arrays = [x for x in data[key] if type(x) == np.ndarray]
+                    # The arrays can have different types, and NumPy would repeat a
+                    # smaller array to fill the place of a larger one
+                    if any(x.shape != data[key][0].shape for x in arrays):
+                        raise ValueError("The arrays have different shapes")
                     new_array = np.empty(
-                        [data[key].size, *data[key][0].shape], dtype=data[key][0].dtype
+                        [data[key].size, *data[key][0].shape],
+                        dtype=np.result_type(*arrays),
                     )
                     for idx in range(new_array.shape[0]):
                         new_array[idx] = data[key][idx]
-- 
2.43.0


From a793d812fdc5f6cd95755a721489750ee900fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:56 +0000
Subject: [PATCH 112/112] fix: missing sav files of the model were not noticed
 when the configuration is checked

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 530b583..c61eb5c 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -8,7 +8,6 @@ from typing import Tuple
 import os
 from PyFHD.pyfhd_tools.git_helper import retrieve_gitdict
 from importlib.metadata import version
-from glob import glob
 import re
 
 
@@ -1484,7 +1483,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     if pyfhd_config["model_file_path"]:
         errors += _check_file_exists(pyfhd_config, "model_file_path")
 
-    if pyfhd_config["model_file_path"] == "sav":
+    if pyfhd_config["model_file_type"] == "sav" and pyfhd_config["model_file_path"]:
         # We're expecting to find a params file, then a vis_model_XX and vis_model_YY at the very least
         if not Path.exists(
             Path(
@@ -1495,14 +1494,17 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
             logger.error(
                 "You selected the model-file-path and sav, but PyFHD can't find the sav file for the model params"
             )
-        files_in_model_path = glob(f"{pyfhd_config['model_file_path']}/*")
+        files_in_model_path = [
+            str(file_path)
+            for file_path in Path(pyfhd_config["model_file_path"]).glob("*")
+        ]
         pattern = rf".*{re.escape(pyfhd_config['obs_id'])}.*\.sav$"
         regex = re.compile(pattern)
         matching_files = [
             file_path for file_path in files_in_model_path if regex.match(file_path)
         ]
         if len(matching_files) <= 2:
-            errors + 1
+            errors += 1
             logger.error(
                 f"You are missing some required files to read in the model visibilities from sav files, here is the list of found sav files: {matching_files}."
             )
-- 
2.43.0

