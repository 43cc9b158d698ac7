From dccb3af95ff674aa86908ffe540a2fb6df585929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:24 +0000
Subject: [PATCH 01/27] fix: baseline_constant propagates NaN in wet as
 documented

wet was cast to bool, which turned NaN into True, so the documented NaN
baseline during and after a NaN period was never produced.
---
 pycomlink/processing/baseline.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index ee8d071..a859f92 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -43,7 +43,7 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 
     return _numba_baseline_constant(
         trsl=np.asarray(trsl, dtype=np.float64),
-        wet=np.asarray(wet, dtype=bool),
+        wet=np.asarray(wet, dtype=np.float64),
         n_average_last_dry=n_average_last_dry,
     )
 
@@ -52,12 +52,17 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 def _numba_baseline_constant(trsl, wet, n_average_last_dry):
     baseline = np.zeros_like(trsl, dtype=np.float64)
     baseline[0:n_average_last_dry] = trsl[0:n_average_last_dry]
+    for i in range(min(n_average_last_dry, len(trsl))):
+        if np.isnan(wet[i]):
+            baseline[i] = np.nan
     for i in range(n_average_last_dry, len(trsl)):
         if np.isnan(wet[i]):
             baseline[i] = np.nan
-        elif wet[i] & ~wet[i - 1]:
+        elif wet[i] and not wet[i - 1]:
             baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])
-        elif wet[i] & wet[i - 1]:
+        elif wet[i]:
+            # either the wet event continues or the state before was NaN, in
+            # which case the baseline stays NaN
             baseline[i] = baseline[i - 1]
         else:
             baseline[i] = trsl[i]
-- 
2.43.0


From 47659a45b130a76e128ae894881aec6fa20157b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:24 +0000
Subject: [PATCH 02/27] fix: baseline_linear returns NaN for an unfinished wet
 period instead of 0

---
 pycomlink/processing/baseline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index a859f92..c025287 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -163,4 +163,8 @@ def _numba_baseline_linear(rsl, wet, ignore_nan=False):
         else:
             # print('This should be impossible')
             raise
+    # the end of an unfinished wet period is not known, so there is nothing to
+    # interpolate to
+    if last_i_is_wet:
+        baseline[last_dry_i + 1 :] = np.nan
     return baseline
-- 
2.43.0


From 17f054a11ccbdfd35638611647aa401842807af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:24 +0000
Subject: [PATCH 03/27] fix: get_blackout_start_and_end works with DataArrays
 as documented

The xarray wrapper declared one output, the function returns two.
---
 pycomlink/processing/blackout_gap_detection.py | 2 +-
 pycomlink/processing/xarray_wrapper.py         | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index cc410c7..2e430f9 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -3,7 +3,7 @@ import numba
 from .xarray_wrapper import xarray_apply_along_time_dim
 
 
-@xarray_apply_along_time_dim()
+@xarray_apply_along_time_dim(n_outputs=2)
 def get_blackout_start_and_end(rsl, rsl_threshold):
     """
     Identify nan gaps as blackout gaps caused by heavy attenuation based on
diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 77b9da7..2d5662a 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -4,13 +4,18 @@ import inspect
 import xarray as xr
 
 
-def xarray_apply_along_time_dim():
+def xarray_apply_along_time_dim(n_outputs=1):
     """
     A decorator to apply CML processing function along the time dimension of DataArrays
 
     This will work if the decorated function takes 1D numpy arrays, which hold the
     CML time series data, as arguments. Additional argument are also handled.
 
+    Parameters
+    ----------
+    n_outputs : int
+        Number of time series returned by the decorated function
+
     """
 
     def decorator(func):
@@ -44,7 +49,7 @@ def xarray_apply_along_time_dim():
                     func,
                     *list(new_args_dict.values()),
                     input_core_dims=input_core_dims,
-                    output_core_dims=[["time"]],
+                    output_core_dims=[["time"]] * n_outputs,
                     vectorize=True,
                 )
 
-- 
2.43.0


From 4f64a99988c40ffc505a31782debe993bbf38656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:24 +0000
Subject: [PATCH 04/27] fix: no blackout gap markers across the ends of the
 time series

np.roll wraps around, so a NaN at one end made a low sample at the other end
the start or end of a gap.
---
 pycomlink/processing/blackout_gap_detection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index 2e430f9..f29aeef 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -29,6 +29,9 @@ def get_blackout_start_and_end(rsl, rsl_threshold):
     rsl_nan = np.isnan(rsl)
     gap_start = np.roll(rsl_nan, -1) & rsl_below_threshold
     gap_end = np.roll(rsl_nan, 1) & rsl_below_threshold
+    # np.roll wraps around, but the last and the first sample have no neighbor
+    gap_start[-1:] = False
+    gap_end[:1] = False
 
     return gap_start, gap_end
 
-- 
2.43.0


From be04e980ebcf542976c69ac2405687a840f2de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:18 +0000
Subject: [PATCH 05/27] fix: nearby_wetdry sums F over timeperiod for any
 interval

The window was timeperiod * 4 steps, which is timeperiod hours only for the
default interval of 15 minutes.
---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index bb26fa5..4eeb434 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -206,7 +206,7 @@ def nearby_wetdry(
 
             # calculate the F values which can be used as outlier filter
             F_val = ds_nearby_cmls.deltaPL.sel(cml_id=cmlid) - medianPL
-            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=timeperiod * 4).sum(
+            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=period).sum(
                 skipna=True
             ) * (interval / 60)
 
-- 
2.43.0


From 6861dc1e2f6e4fefaf3f279905d24b8e01937898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:18 +0000
Subject: [PATCH 06/27] fix: nearby_wetdry does not modify the distance dataset
 it is given

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index 4eeb434..a9073f3 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -155,7 +155,7 @@ def nearby_wetdry(
     deltaPL = deltaP / pmin.length
 
     # get number of CMLs within radius for each CML
-    ds_dist["within_r"] = (
+    within_r = (
         (ds_dist.a_to_all_a < radius)
         & (ds_dist.a_to_all_b < radius)
         & (ds_dist.b_to_all_a < radius)
@@ -174,11 +174,9 @@ def nearby_wetdry(
 
     for cmlid in tqdm(ds_cml.cml_id):
         # only make wet dry detection if min_links is reached within radius
-        if sum(ds_dist.within_r.sel(cml_id1=cmlid).values) > min_links:
+        if sum(within_r.sel(cml_id1=cmlid).values) > min_links:
             # select all CMLs within r
-            ds_nearby_cmls = ds_cml.isel(
-                cml_id=ds_dist.within_r.sel(cml_id1=cmlid).values
-            )
+            ds_nearby_cmls = ds_cml.isel(cml_id=within_r.sel(cml_id1=cmlid).values)
 
             # calculate median delta P and delta PL for each timestep
             # .where checks if the minimal require number of CMLs has data
-- 
2.43.0


From 4cbad7dea108ac00c49ef2af591986760495bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:18 +0000
Subject: [PATCH 07/27] fix: nearby_wetdry matches neighbors by cml_id instead
 of by position

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index a9073f3..ecf26c2 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -161,6 +161,8 @@ def nearby_wetdry(
         & (ds_dist.b_to_all_a < radius)
         & (ds_dist.b_to_all_b < radius)
     )
+    # same order of CMLs as in `pmin`
+    within_r = within_r.sel(cml_id2=pmin.cml_id.values)
 
     ds_cml = pmin.to_dataset(name="pmin")
     ds_cml["max_pmin"] = max_pmin
-- 
2.43.0


From 9158df396d77cc6f6bd2e16d1aade90621e50219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:18 +0000
Subject: [PATCH 08/27] fix: haversine returns no NaN for antipodal points

---
 pycomlink/spatial/helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomlink/spatial/helper.py b/pycomlink/spatial/helper.py
index 70b692e..451cbce 100644
--- a/pycomlink/spatial/helper.py
+++ b/pycomlink/spatial/helper.py
@@ -24,6 +24,8 @@ def haversine(lon1, lat1, lon2, lat2):
     dlon = lon2 - lon1
     dlat = lat2 - lat1
     a = np.sin(dlat / 2) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin(dlon / 2) ** 2
+    # rounding can push `a` slightly above 1 for antipodal points
+    a = np.minimum(a, 1.0)
     c = 2 * np.arctan2(a ** 0.5, (1 - a) ** 0.5)
     km = 6367 * c
     return km
-- 
2.43.0


From 5e9d42973d178431b9de058c4776dade2d8d2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:18 +0000
Subject: [PATCH 09/27] fix: calc_coverage_mask works with shapely 2, which has
 no cascaded_union

---
 pycomlink/spatial/coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/spatial/coverage.py b/pycomlink/spatial/coverage.py
index e218513..7b6c146 100644
--- a/pycomlink/spatial/coverage.py
+++ b/pycomlink/spatial/coverage.py
@@ -49,7 +49,7 @@ def calc_coverage_mask(cml_list, xgrid, ygrid, max_dist_from_cml):
             ).buffer(max_dist_from_cml, cap_style=1)
         )
 
-    cml_multi_line = ops.cascaded_union(cml_lines)
+    cml_multi_line = ops.unary_union(cml_lines)
 
     # Generate list of grid points
     grid_points = []
-- 
2.43.0


From a80c23b9ba650cfb84782f2e3d2aca686dee611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:18 +0000
Subject: [PATCH 10/27] fix: Invdisttree does not reuse neighbors found with
 another max_distance

---
 pycomlink/spatial/idw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomlink/spatial/idw.py b/pycomlink/spatial/idw.py
index 8eaf584..9cf13ce 100644
--- a/pycomlink/spatial/idw.py
+++ b/pycomlink/spatial/idw.py
@@ -99,6 +99,8 @@ class Invdisttree(object):
             and np.array_equal(nnear, self.nnear)
             and hasattr(self, "eps")
             and np.array_equal(eps, self.eps)
+            and hasattr(self, "max_distance")
+            and np.array_equal(max_distance, self.max_distance)
         ):
             # Do nothing here
             # print 'reuse `distances`'
@@ -110,6 +112,7 @@ class Invdisttree(object):
             self.q = q
             self.nnear = nnear
             self.eps = eps
+            self.max_distance = max_distance
 
         self.z = z
 
-- 
2.43.0


From 52698eeb59176ca2789a006203385f4df6353860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:35 +0000
Subject: [PATCH 11/27] fix: Invdisttree keeps a copy of the query points it
 cached distances for

A caller changing its array in place got the distances of the old points.
---
 pycomlink/spatial/idw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/spatial/idw.py b/pycomlink/spatial/idw.py
index 9cf13ce..7a65b32 100644
--- a/pycomlink/spatial/idw.py
+++ b/pycomlink/spatial/idw.py
@@ -109,7 +109,7 @@ class Invdisttree(object):
             self.distances, self.ix = self.tree.query(
                 q, k=nnear, eps=eps, distance_upper_bound=max_distance
             )
-            self.q = q
+            self.q = q.copy()
             self.nnear = nnear
             self.eps = eps
             self.max_distance = max_distance
-- 
2.43.0


From 8fe783e583dbf66da1714d54a6867ed1d38dae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:53 +0000
Subject: [PATCH 12/27] fix: waa_leijnse_2008 and waa_pastorek_2021 accept a
 scalar rain rate as documented

---
 pycomlink/processing/wet_antenna.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/wet_antenna.py b/pycomlink/processing/wet_antenna.py
index 770d465..a4106f2 100644
--- a/pycomlink/processing/wet_antenna.py
+++ b/pycomlink/processing/wet_antenna.py
@@ -293,7 +293,7 @@ def waa_leijnse_2008(
     waa = 10 * np.log10(np.abs((x1 + x2 + x3 + x4) / (2 * n_water * (y1 + y2))) ** 2)
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
-    waa[R == 0] = 0
+    waa = np.where(R == 0, 0, waa)
 
     return waa
 
@@ -416,7 +416,7 @@ def waa_pastorek_2021(
     waa = A_max * (1 - np.exp(-d * (R**zeta)))
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
-    waa[R == 0] = 0
+    waa = np.where(R == 0, 0, waa)
 
     return waa  # @xarray_apply_along_time_dim()
 
-- 
2.43.0


From 80ca9c464d7e32963a44aa8e31476e1c42b9ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:18 +0000
Subject: [PATCH 13/27] fix: rain error metrics count values at the threshold
 as wet, as documented

---
 pycomlink/validation/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/validation/stats.py b/pycomlink/validation/stats.py
index 01db22a..1cb74c1 100644
--- a/pycomlink/validation/stats.py
+++ b/pycomlink/validation/stats.py
@@ -291,9 +291,9 @@ def calc_rain_error_performance_metrics(reference, predicted, rainfall_threshold
     R_mean_predicted = predicted.mean()
 
     # calculate false and missed wet rates and the precipitation at these times
-    reference_wet = reference > rainfall_threshold_wet
+    reference_wet = reference >= rainfall_threshold_wet
     reference_dry = ~reference_wet
-    predicted_wet = predicted > rainfall_threshold_wet
+    predicted_wet = predicted >= rainfall_threshold_wet
     predicted_dry = ~predicted_wet
 
     N_false_wet = (reference_dry & predicted_wet).sum()
-- 
2.43.0


From a5ac35f0f77659b1e037cd354c4546416421343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:23 +0000
Subject: [PATCH 14/27] fix: find_lowest_std_dev_period works again and returns
 the quietest window

matplotlib.mlab.find is gone since matplotlib 3.1, and the returned slice
was one sample too early.
---
 pycomlink/processing/wet_dry/stft.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index b2e0fbb..90825dc 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -15,7 +15,6 @@ from __future__ import division
 
 from builtins import range
 import numpy as np
-from matplotlib import mlab
 from matplotlib.mlab import specgram as specg
 import pandas as pd
 
@@ -217,8 +216,9 @@ def find_lowest_std_dev_period(rsl, window_length=600):
     """
 
     roll_std_dev = pd.DataFrame(rsl).rolling(window_length).std()
-    dry_stop = mlab.find(roll_std_dev == np.nanmin(roll_std_dev))
-    dry_stop = dry_stop[0]
+    # index of the last sample of the (first) window with the lowest std dev
+    i_last = np.where(roll_std_dev == np.nanmin(roll_std_dev))[0][0]
+    dry_stop = i_last + 1
     dry_start = dry_stop - window_length
     return dry_start, dry_stop
 
-- 
2.43.0


From 1a743a15a99070bfa9601c9feefe2774b0e67be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:45 +0000
Subject: [PATCH 15/27] fix: stft_classification with mirror=True does not
 raise TypeError

The float window half broke range() and slicing under Python 3, the mirrored
window missed its center sample, and an odd window_length did not match the
window function.
---
 pycomlink/processing/wet_dry/stft.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index 90825dc..e71b189 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -104,7 +104,7 @@ def stft_classification(
             NFFT = window_length
 
         if window is None:
-            window = np.hamming(window_length)
+            window = np.hamming(NFFT)
 
         # Calculate spectrogram using STFT
         Pxx, f, t = specg(
@@ -128,15 +128,15 @@ def stft_classification(
     N_missing_start = np.floor(N_diff / 2)
 
     if mirror:
-        for i in range((len(rsl) - 1) - (NFFT / 2 - 1), len(rsl)):
-            rsl_mirr = np.concatenate(
-                (rsl[i - (NFFT / 2 - 1) : i], rsl[i - (NFFT / 2 - 1) : i][::-1])
-            )
+        half = NFFT // 2
+        for i in range(len(rsl) - half, len(rsl)):
+            rsl_half = rsl[i - (half - 1) : i + 1]
+            rsl_mirr = np.concatenate((rsl_half, rsl_half[::-1]))
             Pxx_mirr, f, t = specg(
                 rsl_mirr, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
             )
 
-            if i == (len(rsl) - 1) - (NFFT / 2 - 1):
+            if i == len(rsl) - half:
                 Pxx_end = Pxx_mirr
             else:
                 Pxx_end = np.append(Pxx_end, Pxx_mirr, 1)
-- 
2.43.0


From 8a56e07b0521a698b188a3a3db672ba2c043aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:45 +0000
Subject: [PATCH 16/27] fix: list_cached_models lists the cached models

The suffix itself was used as glob pattern, which matches no cached file.
---
 pycomlink/processing/pytorch_utils/inference_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index d71fac1..e1b2361 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -102,7 +102,7 @@ def list_cached_models(cache_dir="~/.cml_wd_pytorch/models", suffix=".pt"):
     """
     cache_dir = Path(cache_dir).expanduser()
     if cache_dir.exists():
-        return list(cache_dir.glob(suffix))
+        return list(cache_dir.glob(f"*{suffix}"))
     return []
 
 
-- 
2.43.0


From 5c5519c5c99fac536c1839c45e1aed957b847b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:45 +0000
Subject: [PATCH 17/27] fix: an interrupted download is not used as cached
 model

urlretrieve wrote to the final path, so a partial file left by a failed
download was returned as cached model by all later calls.
---
 pycomlink/processing/pytorch_utils/inference_utils.py    | 5 ++++-
 pycomlink/processing/tensorflow_utils/inference_utils.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index e1b2361..e7da455 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -66,7 +66,10 @@ def download_and_cache_model(
 
     if not cached_path.exists() or force_download:
         print(f"Downloading model from {model_url}...")
-        urllib.request.urlretrieve(model_url, cached_path)
+        # Only a complete download may get the name of a cached model
+        partial_path = cache_dir / f"{model_filename}.part"
+        urllib.request.urlretrieve(model_url, partial_path)
+        partial_path.replace(cached_path)
         print(f"Model cached at {cached_path}")
     else:
         print(f"Using cached model at {cached_path}")
diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index c58418c..2412e38 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -123,7 +123,10 @@ def download_and_cache(url, cache_dir, force_download=False):
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
-        urllib.request.urlretrieve(url, cached_path)
+        # Only a complete download may get the name of a cached file
+        partial_path = cache_dir / f"{filename}.part"
+        urllib.request.urlretrieve(url, partial_path)
+        partial_path.replace(cached_path)
     else:
         print(f"[→] Using cached file: {cached_path}")
 
-- 
2.43.0


From ac2a983b02ad9ef416bc60a1400110fa1e41267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:45 +0000
Subject: [PATCH 18/27] fix: cached tensorflow files of different URLs do not
 replace each other

Two URLs ending in the same file name shared one cache entry, so the second
model was loaded from the file of the first one.
---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 2412e38..2dff475 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -1,6 +1,7 @@
 # pycomlink/processing/inference_utils.py
 
 # Standard library imports
+import hashlib
 import urllib.request
 from pathlib import Path
 
@@ -118,7 +119,9 @@ def download_and_cache(url, cache_dir, force_download=False):
     """
     cache_dir = Path(cache_dir)
     cache_dir.mkdir(parents=True, exist_ok=True)
-    filename = url.split("/")[-1]
+    # URL hash in the filename to avoid conflicts between files of the same name
+    url_hash = hashlib.md5(url.encode()).hexdigest()
+    filename = f"{url_hash}_{url.split('/')[-1]}"
     cached_path = cache_dir / filename
 
     if not cached_path.exists() or force_download:
-- 
2.43.0


From f2c2837da35c24731ef9754572547a3e9317fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:04 +0000
Subject: [PATCH 19/27] fix: wet_dry_1d_cnn uses the ID coordinate it is given

id_coord was only used to look up the IDs, samples and predictions always
used cml_id.
---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 7 +++++--
 pycomlink/processing/tensorflow_utils/run_inference.py   | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 2dff475..ae207d3 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -30,7 +30,9 @@ def get_optimizer_class():
 # -----------------------
 # Core Functions
 # -----------------------
-def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
+def create_samples(
+    ds, cml_ids, input_vars, seq_len=180, time_dim="time", cml_dim="cml_id"
+):
     """
     Create time series samples from CML dataset for model inference.
 
@@ -40,6 +42,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
         input_vars: List of variable names to use as features
         seq_len: Length of time sequences (default: 180)
         time_dim: Name of the time dimension (default: "time")
+        cml_dim: Name of CML dimension (default: "cml_id")
 
     Returns:
         tuple: (X, ids, time_idx) where X is the feature array,
@@ -49,7 +52,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
 
     for cml in cml_ids:
         try:
-            ds_cml = ds.sel(cml_id=cml)
+            ds_cml = ds.sel({cml_dim: cml})
             inputs = np.stack(
                 [ds_cml[var].values.astype(np.float32) for var in input_vars], axis=-1
             )
diff --git a/pycomlink/processing/tensorflow_utils/run_inference.py b/pycomlink/processing/tensorflow_utils/run_inference.py
index 8960863..b1f7db9 100644
--- a/pycomlink/processing/tensorflow_utils/run_inference.py
+++ b/pycomlink/processing/tensorflow_utils/run_inference.py
@@ -81,7 +81,7 @@ def wet_dry_1d_cnn(
     model = inference_utils.load_model_from_local(json_path, weights_path, lr=lr)
 
     # Prepare samples and scale
-    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len)
+    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len, cml_dim=id_coord)
     X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
 
     # Predict
@@ -98,6 +98,7 @@ def wet_dry_1d_cnn(
         model_prob=y_prob,
         time_indices = t_idx,
         cml_ids=ids,
+        cml_dim=id_coord,
         var_name=prob_name)    
 
     if return_ds:
-- 
2.43.0


From 8ee2f9fbd35bc25dac5ac208c691fec7835afbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:05 +0000
Subject: [PATCH 20/27] fix: a_b accepts a zero-dimensional DataArray as
 frequency

---
 pycomlink/processing/k_R_relation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/k_R_relation.py b/pycomlink/processing/k_R_relation.py
index 60c8c9a..9934a03 100644
--- a/pycomlink/processing/k_R_relation.py
+++ b/pycomlink/processing/k_R_relation.py
@@ -203,6 +203,7 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     if isinstance(f_GHz, xr.DataArray):
         return_xarray = True
         f_GHz_coords = f_GHz.coords
+        f_GHz_shape = f_GHz.shape
     else:
         return_xarray = False
 
@@ -258,8 +259,8 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     # If f_GHz is a xr.DataArray a and b should be also returned as xr.DataArray
     # with identical coordinates
     if return_xarray:
-        a = xr.DataArray(a, coords=f_GHz_coords)
-        b = xr.DataArray(b, coords=f_GHz_coords)
+        a = xr.DataArray(a.reshape(f_GHz_shape), coords=f_GHz_coords)
+        b = xr.DataArray(b.reshape(f_GHz_shape), coords=f_GHz_coords)
 
     return a, b
 
-- 
2.43.0


From 4f137bd09d51bdd61fde62fc2f8453a0455f4953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:59 +0000
Subject: [PATCH 21/27] fix: interpolating only NaNs onto a grid of integers
 does not raise

---
 pycomlink/spatial/interpolator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 973c22a..b5dd8ee 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -54,9 +54,7 @@ class PointsToGridInterpolator(with_metaclass(abc.ABCMeta, object)):
             x_list=x, y_list=y, xgrid=xgrid, ygrid=ygrid, resolution=resolution
         )
         if (~pd.isnull(z)).sum() == 0:
-            zgrid = np.zeros_like(self.xgrid)
-            zgrid[:] = np.nan
-            self.zgrid = zgrid
+            self.zgrid = np.full(self.xgrid.shape, np.nan)
 
         else:
             zi = self._interpol_func(
-- 
2.43.0


From 0625a8f4b6bc54802cab54d71954b0d80666baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:59 +0000
Subject: [PATCH 22/27] fix: IdwKdtreeInterpolator keeps copies of the points
 it built the tree for

---
 pycomlink/spatial/interpolator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index b5dd8ee..b7f25ed 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -101,8 +101,9 @@ class IdwKdtreeInterpolator(PointsToGridInterpolator):
             # print('Building new `Invdistree`')
             idw = Invdisttree(X=list(zip(x, y)))
             self.idw = idw
-            self.x = x
-            self.y = y
+            # copies, so that a later in-place change of the passed arrays is noticed
+            self.x = x.copy()
+            self.y = y.copy()
 
         zi = idw(
             q=list(zip(xi, yi)),
-- 
2.43.0


From f6323aa984839ced73a36b7e63436b08feb53b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:01 +0000
Subject: [PATCH 23/27] fix: redistribute_results stores predictions of models
 with an output column

---
 pycomlink/processing/pytorch_utils/run_inference.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/run_inference.py b/pycomlink/processing/pytorch_utils/run_inference.py
index 062c2c9..db27096 100644
--- a/pycomlink/processing/pytorch_utils/run_inference.py
+++ b/pycomlink/processing/pytorch_utils/run_inference.py
@@ -151,7 +151,9 @@ def redistribute_results(results, data):
     Returns:
         xarray.Dataset: Dataset with predictions added as a new variable
     """
-    predictions = results["predictions"]  # Remove any extra dimensions
+    predictions = results["predictions"]
+    # Remove any extra dimensions, there is one prediction per sample
+    predictions = np.reshape(predictions, len(predictions))
     cml_ids = results["cml_ids"]  # Already numpy array
     times = results["times"]  # Already numpy array
 
-- 
2.43.0


From 46e80c93a5afe7c29fecb129469a7074c807556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:43 +0000
Subject: [PATCH 24/27] fix: Validator.calc_stats joins on the time stamps and
 leaves the link unchanged

---
 pycomlink/validation/validator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index 32dd376..7267579 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -16,13 +16,10 @@ class Validator(object):
         pass
 
     def calc_stats(self, cml, time_series):
-        cml_copy = cml
         time_series_df = pd.DataFrame(
             data={"xr_ds": time_series}, index=time_series.time
         )
-        cml_copy.data.index = cml_copy.data.index.strftime("%Y-%m-%d %H:%M:%S")
-        # pd.DatetimeIndex(cml.data.index)
-        joined_df = time_series_df.join(cml_copy.data.txrx_nf)
+        joined_df = time_series_df.join(cml.data.txrx_nf)
         pearson_r = joined_df.xr_ds.corr(joined_df.txrx_nf, method="pearson")
         return pearson_r
 
-- 
2.43.0


From dc43eda2697ce741f5c3a064212c81689b7d3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:58 +0000
Subject: [PATCH 25/27] fix: aggregate_df_onto_DatetimeIndex labels results in
 the given time zone

---
 pycomlink/util/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index 6f2f319..bbf77c2 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -67,7 +67,7 @@ def aggregate_df_onto_DatetimeIndex(
     # Update name and timezone of new index
     df_reindexed.index.name = df_temp.index.name
     if not df_reindexed.index.tzinfo:
-        df_reindexed.index = df_reindexed.index.tz_localize("UTC").tz_convert(
+        df_reindexed.index = df_reindexed.index.tz_localize(new_index_tz).tz_convert(
             df_temp.index.tzinfo
         )
 
-- 
2.43.0


From 82d693db6af584301cfd3605adc9f1c106748cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:19 +0000
Subject: [PATCH 26/27] fix: aggregate_df_onto_DatetimeIndex accepts data and
 labels in different time zones

---
 pycomlink/util/temporal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index bbf77c2..d0cdee8 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -54,6 +54,8 @@ def aggregate_df_onto_DatetimeIndex(
     # end point of the time series in the aggregated result
     t_start = max(df_temp.index.min(), df_new_t.index.min())
     t_stop = min(df_temp.index.max(), df_new_t.index.max())
+    # slices need start and stop in the same time zone
+    t_stop = t_stop.tz_convert(t_start.tz)
     df_new_t = df_new_t.loc[t_start:t_stop]
     df_temp = df_temp.loc[t_start:t_stop]
 
-- 
2.43.0


From 426feb291bcd3ab20eddd4ecc08874e14203c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 27/27] fix: xarray_apply_along_time_dim rejects unknown and
 missing arguments

---
 pycomlink/processing/xarray_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 2d5662a..6d60f8c 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -69,6 +69,8 @@ def _get_new_args_dict(func, args, kwargs):
     xarray.apply_ufunc in the xarray wrapper.
 
     """
+    # raises a TypeError for unknown or missing arguments, as calling `func` does
+    inspect.signature(func).bind(*args, **kwargs)
     new_args_dict = OrderedDict()
     for i, (arg, parameter) in enumerate(inspect.signature(func).parameters.items()):
         if i < len(args):
-- 
2.43.0

