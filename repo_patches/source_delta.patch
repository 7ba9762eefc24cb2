From 54e40a4b5ebea70738184f908562621a4b830c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 01/54] fix: accumulation interpolates missing steps between
 the right messages

---
 src/pyg2p/main/manipulation/aggregator.py | 41 +++++++++++------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 640bed6..f03f30a 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -83,9 +83,12 @@ class Aggregator(Loggable):
             self._log('start 0: change to the first timestep {}'.format(self._aggregation_step))
             self._start = self._aggregation_step
 
-        created_zero_array = False
+        if self._start == self._aggregation_step and 0 not in v_ord:
+            self._log('Message 0 not in dataset. Creating it as zero values array')
+            v_ord[0] = np.zeros(shape_iter)
+        # ordered steps used for interpolation: steps interpolated in the loop are not added
+        v_ord_keys = sorted(v_ord.keys())
         for iter_ in range(self._start, self._end + 1, self._aggregation_step):
-            v_ord_keys = list(v_ord.keys())
             if iter_ not in v_ord_keys:
 
                 ind_next_ts = bisect.bisect_left(v_ord_keys, iter_)
@@ -105,28 +108,22 @@ class Aggregator(Loggable):
                 v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
                 v_ord[iter_] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
 
-            if iter_ - self._aggregation_step >= 0 and iter_ - self._aggregation_step not in v_ord_keys and not created_zero_array:
-                ind_next_ts = bisect.bisect_left(v_ord_keys, iter_ - self._aggregation_step)
+            prev_iter = iter_ - self._aggregation_step
+            if prev_iter >= 0 and prev_iter not in v_ord:
+                ind_next_ts = bisect.bisect_left(v_ord_keys, prev_iter)
                 next_ts = v_ord_keys[ind_next_ts]
+                v_nts_ma = v_ord[next_ts]
+                ind_originalts = bisect.bisect_right(v_ord_keys, prev_iter)
+                if ind_originalts == ind_next_ts:
+                    ind_originalts -= 1
+                originalts = v_ord_keys[ind_originalts]
+                # variables needed for numexpr evaluator namespace
+                v_ots_ma = v_ord[originalts]
 
-                if iter_ - self._aggregation_step == 0:
-                    self._log('Message 0 not in dataset. Creating it as zero values array')
-                    v_ord[0] = np.zeros(shape_iter)
-                    originalts = 0  # do not delete: used by numexpr evaluation
-                    created_zero_array = True
-                else:
-                    v_nts_ma = v_ord[next_ts]
-                    ind_originalts = bisect.bisect_right(v_ord_keys, iter_ - self._aggregation_step)
-                    if ind_originalts == ind_next_ts:
-                        ind_originalts -= 1
-                    originalts = v_ord_keys[ind_originalts]
-                    # variables needed for numexpr evaluator namespace
-                    v_ots_ma = v_ord[originalts]
-
-                    if self._logger.isEnabledFor(logging.DEBUG):
-                        self._log(f'Creating message grib[{iter_ - self._aggregation_step}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_}-{originalts})/({next_ts}-{originalts}))')
-                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
-                    v_ord[iter_ - self._aggregation_step] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
+                if self._logger.isEnabledFor(logging.DEBUG):
+                    self._log(f'Creating message grib[{prev_iter}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({prev_iter}-{originalts})/({next_ts}-{originalts}))')
+                v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((prev_iter - originalts)/(next_ts-originalts))')
+                v_ord[prev_iter] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
 
             if iter_ - self._aggregation_step == 0 and self._force_zero:
                 # forced ZERO array...instead of taking the grib
-- 
2.43.0


From 27e3ed6532bad565538a7379b291360f8f32a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 02/54] fix: aggregation keeps missing values of the messages
 it uses

---
 src/pyg2p/main/manipulation/aggregator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index f03f30a..e096498 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -142,7 +142,7 @@ class Aggregator(Loggable):
             _aggr_step = self._aggregation_step
             key = Step(iter_ - self._aggregation_step, iter_, resolution, self._aggregation_step, level)
             out_value = ne.evaluate('(v_iter_ma-v_iter_1_ma)*_unit_time/_aggr_step')
-            out_values[key] = ma.masked_where(numeric.get_masks(v_iter_ma, v_iter_1_ma), out_value, copy=False)
+            out_values[key] = ma.masked_where(numeric.get_masks(v_ord[iter_], v_iter_1_ma), out_value, copy=False)
 
             if self._logger.isEnabledFor(logging.DEBUG):
                 self._log(f'out[{key}] = (grib[{iter_}] - grib[{(iter_ - self._aggregation_step)}])  * ({self._unit_time}/{self._aggregation_step}))')
@@ -178,6 +178,7 @@ class Aggregator(Loggable):
                     iter_to = iter_ + self._aggregation_step + 1
                 temp_sum = np.zeros(shape_iter)
                 sum_counter = 0.0
+                used_values = []
                 v_ord_keys = list(v_ord.keys())
 
                 if self._aggregation_halfweights:
@@ -201,6 +202,7 @@ class Aggregator(Loggable):
                                     v_ma = v_ord[iterator_avg]*dt1
                                     print("Iterator: {} weight: {}".format(iterator_avg,dt1))
                                     sum_counter += dt1
+                                used_values.append(v_ma)
                                 ne.evaluate('temp_sum + v_ma', out=temp_sum)
                 else:
                     for iterator_avg in range(iter_from, iter_to, 1):
@@ -218,6 +220,7 @@ class Aggregator(Loggable):
                             v_ma = v_ord[next_]
                             sum_counter += 1
                             print("Iterator: {} weight: 1".format(next_))
+                        used_values.append(v_ma)
                         ne.evaluate('temp_sum + v_ma', out=temp_sum)
 
                 # mask result with all maskes from GRIB original values used in average (if existing any)
@@ -226,7 +229,7 @@ class Aggregator(Loggable):
                 print("dividing sum by {}".format(sum_counter))
                 res = ne.evaluate('temp_sum/sum_counter')
                 # mask result with all maskes from GRIB original values used in average (if existing any)
-                out_values[key] = ma.masked_where(numeric.get_masks(v_ord.values()), res, copy=False)
+                out_values[key] = ma.masked_where(numeric.get_masks(*used_values), res, copy=False)
                 if self._logger.isEnabledFor(logging.DEBUG):
                     self._log(f'out[{key}] = temp_sum/{sum_counter}')
 
@@ -258,7 +261,7 @@ class Aggregator(Loggable):
                 if iter_ in v_ord_keys:
                     if self._logger.isEnabledFor(logging.DEBUG):
                         self._log(f'out[{key}] = grib[{iter_}]')
-                    res_inst += v_ord[iter_]
+                    res_inst = res_inst + v_ord[iter_]
                 else:
                     if iter_ == 0:
                         # left out as zero arrays if 0 step is not in the grib
@@ -270,7 +273,7 @@ class Aggregator(Loggable):
                         next_ = list(v_ord_keys)[ind_next_]
                         if self._logger.isEnabledFor(logging.DEBUG):
                             self._log(f'out[{key}] = grib[{next_}]')
-                        res_inst += v_ord[next_]
+                        res_inst = res_inst + v_ord[next_]
                 out_values[key] = res_inst
 
             return out_values
-- 
2.43.0


From 4ff5d63c230be4680f0d7135f44e0f376f411b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 03/54] fix: average does not produce a window past the last
 step

---
 src/pyg2p/main/manipulation/aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index e096498..7d0ad83 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -164,7 +164,7 @@ class Aggregator(Loggable):
             v_ord = collections.OrderedDict(sorted(dict((k.end_step, v_) for (k, v_) in values.items()).items(), key=lambda k: k))
             if self._start == 0 or self._second_t_res:
                 iter_start = self._start
-                iter_end = self._end - self._aggregation_step + 2       # CR: TODO: check if +2 instead of +1 is actually needed
+                iter_end = self._end - self._aggregation_step + 1
             else:
                 iter_start = self._start - self._aggregation_step
                 iter_end = self._end - self._aggregation_step + 1
-- 
2.43.0


From aeb7d92338c2c506181ab31ff7b7249bd1bd8a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 04/54] fix: cutting off negative values keeps missing values

---
 src/pyg2p/main/manipulation/conversion.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index 2a3cdd6..d86ffc4 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -45,12 +45,19 @@ class Converter(Loggable):
         self._log('Cutting off negative values...')
         if isinstance(xs, dict):
             for timestep, values in xs.items():
-                xs[timestep] = ne.evaluate('where(values<0, 0, values)')
+                xs[timestep] = self._cut_off(values)
         else:
-            values = xs
-            xs = ne.evaluate('where(values<0, 0, values)')
+            xs = self._cut_off(xs)
         return xs
 
+    @staticmethod
+    def _cut_off(values):
+        res = ne.evaluate('where(values<0, 0, values)')
+        # preserve maskes as numexpr just ignores them
+        if isinstance(values, ma.core.MaskedArray):
+            res = ma.masked_where(values.mask, res, copy=False)
+        return res
+
     def __str__(self):
         log_mess = "\nConverting values from units {}. " \
                    "\nFunction: {}" \
-- 
2.43.0


From 68277423d547e30d844330515b273832df4fe449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 05/54] fix: conversion function with a comparison on x

---
 src/pyg2p/main/manipulation/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index d86ffc4..7021aae 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -18,7 +18,7 @@ class Converter(Loggable):
             if self._function_str == 'x=x':
                 self._identity = True
             else:
-                self._numexpr_eval = 'where(x!=mv, {}, mv)'.format(self._function_str.replace('x=', ''))
+                self._numexpr_eval = 'where(x!=mv, {}, mv)'.format(self._function_str.replace('x=', '', 1))
 
     def set_unit_to_convert(self, unit):
         self._initial_unit = unit
-- 
2.43.0


From 1baff0cb5acfee0db167c238fea8581f6d653152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 06/54] fix: interpolation keeps missing source values when it
 appends the missing value

---
 src/pyg2p/main/interpolation/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 4e7b2f0..0a3e37e 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -144,7 +144,8 @@ class Interpolator(Loggable):
         # It gives (last_index + 1) from original values when value can't be computed.
         # These "last_index + 1" indexes are stored in intertable so we artificially add a missing value
         # v[last_index + 1] = mv
-        v = np.append(v, self.mv_output)
+        # masks of the original values are kept
+        v = ma.append(v, self.mv_output) if isinstance(v, ma.core.MaskedArray) else np.append(v, self.mv_output)
         orig_mask = False if not isinstance(v, ma.core.MaskedArray) else v.mask
         if nnear == 1:
             if isinstance(orig_mask, np.ndarray):
-- 
2.43.0


From 0d7ab2d7851aacf67973e84b88ebe52469480a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 07/54] fix: GRIB-API interpolation uses tables that are stored
 compressed under the registered name

---
 src/pyg2p/main/interpolation/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 0a3e37e..1357741 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -100,6 +100,11 @@ class Interpolator(Loggable):
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
         return intertable_id, tbl_fullpath
 
+    @staticmethod
+    def _intertable_exists(tbl_fullpath):
+        # an interpolation table can be stored compressed under the registered name plus .gz
+        return pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')
+
     def _read_intertable(self, tbl_fullpath):
 
         if tbl_fullpath not in self._LOADED_INTERTABLES:
@@ -273,7 +278,7 @@ class Interpolator(Loggable):
             intertable_id, intertable_name = self._intertable_filename(grid_id)
         result = np.empty(self._target_coords.lons.shape)
         result.fill(self.mv_out)
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_name):
             # calling recursive grib_nearest
             # aux_gid and aux_values are only used to create the interlookuptable
             if is_second_res:
@@ -284,7 +289,7 @@ class Interpolator(Loggable):
                 self.grib_nearest(self._aux_val, self._aux_gid, grid_id,
                                   intertable_name=intertable_name, intertable_id=intertable_id)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._intertable_exists(intertable_name):
             # interpolation using intertables
             xs, ys, idxs = self._read_intertable(intertable_name)
 
@@ -321,7 +326,7 @@ class Interpolator(Loggable):
         result.fill(self.mv_out)
 
         # check if gid is due to the recursive call
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._intertable_exists(intertable_name):
             # aux_gid and aux_values are only used to create the interlookuptable
             # since manipulated values messages don't have gid reference to grib file any longer
             aux_gid = self._aux_gid
@@ -332,7 +337,7 @@ class Interpolator(Loggable):
             self.grib_inverse_distance(aux_val, aux_gid, grid_id, intertable_name=intertable_name,
                                        intertable_id=intertable_id, is_second_res=is_second_res)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._intertable_exists(intertable_name):
             # interpolation using intertables
             xs, ys, idxs1, idxs2, idxs3, idxs4, coeffs1, coeffs2, coeffs3, coeffs4 = self._read_intertable(intertable_name)
         elif self.create_if_missing:
-- 
2.43.0


From 7872b3e9bfdf0cfc2d6ca9d97f3016c3a86492aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 08/54] fix: interpolation tables for target grids with fewer
 than 250 cells

---
 src/pyg2p/util/generics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/util/generics.py b/src/pyg2p/util/generics.py
index ef0046a..eda5f87 100644
--- a/src/pyg2p/util/generics.py
+++ b/src/pyg2p/util/generics.py
@@ -20,7 +20,7 @@ def is_callable(v):
 
 
 def progress_step_and_backchar(num_cells):
-    progress_step = int(num_cells / 250)
+    progress_step = max(1, int(num_cells / 250))
     back_char = '\r'
     if not stdout.isatty():
         # out is being redirected
-- 
2.43.0


From 0e5cafe61d323a6cde533ed363e26363b84ca96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 09/54] fix: elevation correction keeps cells missing that
 interpolation left missing

---
 src/pyg2p/main/manipulation/correction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 2d17d40..8e7df22 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -10,7 +10,6 @@ from pyg2p.main.interpolation.latlong import Dem
 from pyg2p.main.readers.grib import GRIBReader
 
 from pyg2p.main.config import GeopotentialsConfiguration
-import pyg2p.util.numeric
 from netCDF4 import default_fillvals
 
 from ..interpolation.scipy_interpolation_lib import DEBUG_BILINEAR_INTERPOLATION, \
@@ -78,7 +77,11 @@ class Corrector(Loggable):
             mv = default_fillvals[values.dtype.str[1:]] # take missing values from the default netCDF fillvals values
             values = ne.evaluate(self._numexpr_eval)
             # mask out values (here is already output values with destination shape)
-            values = ma.masked_where(pyg2p.util.numeric.get_masks(p), values)
+            # cells without dem and cells that interpolation left missing (in values or in geopotential) stay missing
+            missing = np.isnan(dem)
+            for v in (p, gem):
+                missing = missing | ma.getmaskarray(v) | np.isnan(ma.getdata(v)) | (ma.getdata(v) == self._target_missing_value)
+            values = ma.masked_where(missing, values)
         return values
 
     def _read_geo(self, grib_file, ctx):
@@ -105,6 +108,7 @@ class Corrector(Loggable):
             lats, lons = geopotential_gribs.latlons
             values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
         reader.close()
+        self._target_missing_value = interpolator.mv_output
         return missing, values_resampled
 
     @staticmethod
-- 
2.43.0


From 072d31b083e3ac1c9209a75140a4155f64bc5ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 10/54] fix: a corrector is reused only for the same correction
 formulas and target grid

---
 src/pyg2p/main/manipulation/correction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 8e7df22..7be5d4b 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -18,6 +18,8 @@ from ..interpolation.scipy_interpolation_lib import DEBUG_BILINEAR_INTERPOLATION
 class Corrector(Loggable):
 
     instances = {}
+    # execution parameters a corrector depends on
+    _ctx_keys = ('correction.formula', 'correction.gemFormula', 'interpolation.mode', 'interpolation.latMap', 'interpolation.lonMap')
 
     def __repr__(self):
         return f'Corrector<{self.grid_id} {self.geo_file}>'
@@ -26,7 +28,8 @@ class Corrector(Loggable):
     def get_instance(cls, ctx, grid_id):
         geo_file_ = ctx.geo_file(grid_id)
         dem_map = ctx.get('correction.demMap')
-        key = f'{grid_id}{dem_map}'
+        # api users can run several commands in the same process
+        key = (grid_id, dem_map, geo_file_) + tuple(ctx.get(k) for k in cls._ctx_keys)
         if key in cls.instances:
             return cls.instances[key]
         else:
-- 
2.43.0


From aafeb8efd83dec567a987b23aa75e60a2e286f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 11/54] fix: corrected cells without DEM or geopotential height
 are masked, so that every output format writes them as missing

---
 src/pyg2p/main/manipulation/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 7be5d4b..f9ab17b 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -81,7 +81,7 @@ class Corrector(Loggable):
             values = ne.evaluate(self._numexpr_eval)
             # mask out values (here is already output values with destination shape)
             # cells without dem and cells that interpolation left missing (in values or in geopotential) stay missing
-            missing = np.isnan(dem)
+            missing = np.isnan(dem) | (values == mv)
             for v in (p, gem):
                 missing = missing | ma.getmaskarray(v) | np.isnan(ma.getdata(v)) | (ma.getdata(v) == self._target_missing_value)
             values = ma.masked_where(missing, values)
-- 
2.43.0


From ad9e90a92867ce809185b6ef063b85b9cb4b24e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 12/54] fix: netCDF output keeps masked cells missing

---
 src/pyg2p/main/writers/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 41c20f3..ad23002 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -65,6 +65,7 @@ class OutputWriter(Loggable):
             if self.ctx.must_do_correction:
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
+            out_v = np.ma.filled(out_v, np.nan)
             out_v[out_v == self.interpolator.mv_output] = np.nan
             out_values.append(out_v)
             time_values.append(timestep.end_step)
-- 
2.43.0


From 7df7429d73ba2e352a945aebf49254f48ac649fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 13/54] fix: netCDF output with a clone map without missing
 cells

---
 src/pyg2p/main/writers/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 1702511..ca2b41b 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -32,7 +32,7 @@ class NetCDFWriter(Writer):
         
         # add mask from clone map
         self.area = ma.masked_values(self.area, area.mv)
-        self._mask = ma.getmask(self.area)
+        self._mask = ma.getmaskarray(self.area)  # a clone without missing cells has no mask
         
         if lats_map.endswith('.nc'):
             if (lats_map!=lons_map):
-- 
2.43.0


From 86081145d893e24379d559c39878f771af7164da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 14/54] fix: netCDF output writes missing cells exactly as the
 missing value for every scale factor and offset

---
 src/pyg2p/main/writers/netcdf.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index ca2b41b..0ac4bad 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -145,10 +145,8 @@ class NetCDFWriter(Writer):
             values_nc.valid_max = (np.float64(varargs.get('valid_max', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))
         values_nc.set_auto_maskandscale(True)         
         
-        # adjust missing values when scale_factor and offset are not 1.0 - 0.0 
-        mv_scaled = np.float64(missing_value_to_use) * np.float64(varargs.get('scale_factor', '1.0')) + np.float64(varargs.get('offset', '0.0'))
-        values = self._mask_values(values, mv_scaled)
-        values[np.isnan(values)] = mv_scaled
+        # masked values are written as missing_value, without applying scale_factor and offset
+        values = self._mask_values(values)
 
         for t in range(len(time_values)):
             if DEBUG_BILINEAR_INTERPOLATION:
@@ -167,20 +165,14 @@ class NetCDFWriter(Writer):
         longitude[:] = self.lons[0,:]
         latitude[:] = self.lats[:,0]
 
-    def _mask_values(self, values, mv):
+    def _mask_values(self, values):
         # Extend the mask to match the shape of values
         if self._mask.shape != values.shape[1:]:
             raise ValueError("The shape of the mask does not match the shape of the values (excluding the first dimension).")
         
         extended_mask = np.broadcast_to(self._mask, values.shape)
     
-        if isinstance(values, ma.core.MaskedArray):
-            masked = ma.masked_where((extended_mask | values.mask), values.data, copy=False)
-        else:
-            masked = ma.masked_where(extended_mask, values, copy=False)
-    
-        masked = ma.filled(masked, mv)
-        return masked
+        return ma.masked_where(extended_mask | ma.getmaskarray(values) | np.isnan(ma.getdata(values)), ma.getdata(values), copy=False)
 
     def close(self):
         self.nf.close()
-- 
2.43.0


From 0985e59c5581a24b94e166edddf79f5ad5d5b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 15/54] fix: PCRaster output writes missing cells of netCDF
 target maps as missing

---
 src/pyg2p/main/writers/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index ad23002..7cbfeb7 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -107,6 +107,8 @@ class OutputWriter(Loggable):
             if self.ctx.must_do_correction:
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
+            # the missing value of the target maps may not be the one of the clone map
+            out_v[out_v == self.interpolator.mv_output] = np.nan
             self.writer.write(self._name_pcr_map(i), out_v)
 
     def write_maps(self, values, messages, change_res_step=None):
-- 
2.43.0


From ee8c6bdae8dc8400ad38ae2471367f24d62515ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 16/54] fix: data date of messages whose data time is not 0,
 1200 or 1800 (600 ended the run with an error)

---
 src/pyg2p/__init__.py          | 4 ++--
 src/pyg2p/main/readers/grib.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/__init__.py b/src/pyg2p/__init__.py
index 463f295..aa9de94 100644
--- a/src/pyg2p/__init__.py
+++ b/src/pyg2p/__init__.py
@@ -145,7 +145,7 @@ class GribGridDetails(Loggable):
 
 class Messages(Loggable):
 
-    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0'):
+    def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0000'):
         super().__init__()
         self.values_first_or_single_res = values
         self.values_second_res = val_2nd or {}
@@ -154,7 +154,7 @@ class Messages(Loggable):
         self.type_of_level = type_of_level
         self.unit = unit
         self.missing_value = mv
-        self.data_date = datetime.strptime(f'{data_date}{data_time}', '%Y%m%d%H')
+        self.data_date = datetime.strptime(f'{data_date}{data_time}', '%Y%m%d%H%M')
 
         self.grid_details = grid_details
         # order key list to get first step
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index a4abd63..2cdda3d 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -208,7 +208,7 @@ class GRIBReader(Loggable):
             if grid2:
                 key_2nd_spatial_res = min(all_values_second_res.keys())
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
-            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=str(data_time)[:2])
+            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}')
         # no messages found
         else:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
-- 
2.43.0


From fa5be6e3c410224d1feefa250ae61e88d3cd4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 17/54] fix: scan a GRIB file that cannot be indexed from its
 beginning every time (only the first scan found messages)

---
 src/pyg2p/main/readers/grib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 2cdda3d..5a64598 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -125,6 +125,7 @@ class GRIBReader(Loggable):
                         # release unused grib
                         codes_release(gid)
         elif self._file_handler:
+            self._file_handler.seek(0)  # a reader scans the file more than once
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
-- 
2.43.0


From 7891b59038452c8930818391d676ef2541df916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 18/54] fix: a GRIB file that cannot be indexed has a
 geopotential only if one of its messages is one

---
 src/pyg2p/main/readers/grib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 5a64598..9d6d5e2 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -96,11 +96,12 @@ class GRIBReader(Loggable):
                     codes_release(gid)
 
         elif self._file_handler:
+            self._file_handler.seek(0)
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
                     break
-                has_geo = True
+                has_geo = has_geo or GRIBReader._find(gid, shortName=v_selected)
                 codes_release(gid)
         return has_geo
 
-- 
2.43.0


From 5e5161562bf341b7f3e77e3cc9d02c4cbf353442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 19/54] fix: main resolution messages after the first message
 of the second resolution were dropped

---
 src/pyg2p/main/readers/grib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 9d6d5e2..4ad8949 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -202,9 +202,9 @@ class GRIBReader(Loggable):
                     bitmap = codes_get_array(g, 'bitmap', int)
                     values = ma.masked_where(bitmap == 0, values, copy=False)
 
-                if not grid2:
+                if points_meridian == grid.num_points_along_meridian:
                     all_values[step_key] = values
-                elif points_meridian != grid.num_points_along_meridian:
+                else:
                     all_values_second_res[step_key] = values
 
             if grid2:
-- 
2.43.0


From f8bba0894f44065fae9db3b87732e6635334c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 20/54] fix: end step 0 and JSON values 0 of tend, dataTime
 were taken as not given

---
 src/pyg2p/main/context.py    | 10 +++++-----
 src/pyg2p/main/controller.py |  4 +++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 92be2fc..c73c30c 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -125,7 +125,7 @@ class Context:
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
             # check tstart<=tend
-            if self._vars['parameter.tstart'] and self._vars['parameter.tend'] and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
+            if self._vars['parameter.tstart'] is not None and self._vars['parameter.tend'] is not None and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
                 raise ApplicationException.get_exc(1500)
 
             # check both correction params are present
@@ -403,13 +403,13 @@ class ExecutionContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart'):
+        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart') not in (None, ''):
             self._vars['parameter.tstart'] = int(exec_conf['Parameter']['@tstart'])
-        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend'):
+        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend') not in (None, ''):
             self._vars['parameter.tend'] = int(exec_conf['Parameter']['@tend'])
-        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime'):
+        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
-        if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
+        if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate') not in (None, ''):
             self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
 
         self._vars['parameter.level'] = exec_conf['Parameter'].get('@level')  # number
diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index c1325c4..2cc62ae 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -37,7 +37,9 @@ class Controller(Loggable):
 
         # read grib messages
         start_step = self.ctx.get('parameter.tstart') or 0
-        end_step = self.ctx.get('parameter.tend') or grib_info.end
+        end_step = self.ctx.get('parameter.tend')
+        if end_step is None:
+            end_step = grib_info.end
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
-- 
2.43.0


From 0c90fc1c969679d757de173f82b2d61d96bdaa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 21/54] fix: -f 1 and -x 1 did not override the JSON file and
 fmap 0 in JSON was taken as 1

---
 src/pyg2p/main/context.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index c73c30c..2fafdf2 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -273,12 +273,12 @@ class ExecutionContext(Context):
                             type=int, metavar='data_date')
 
         # output file naming (first extension number, extension number step, prefix
-        parser.add_argument('-f', '--fmap', help='First map number', type=int, default=1, metavar='fmap')
+        parser.add_argument('-f', '--fmap', help='First map number', type=int, metavar='fmap')
         # output file format
         parser.add_argument('-F', '--format', metavar='format',
                             default='notset', choices=['netcdf', 'pcraster', 'notset'],
                             help='Output format. Available options: netcdf,  pcraster. Default pcraster')
-        parser.add_argument('-x', '--ext', help='Extension number step', type=int, default=1, metavar='extension_step')
+        parser.add_argument('-x', '--ext', help='Extension number step', type=int, metavar='extension_step')
         parser.add_argument('-n', '--namePrefix', help='Prefix name for maps', metavar='outfiles_prefix')
         parser.add_argument('-O', '--offset', help='Map offset', metavar='offset')
         parser.add_argument('-S', '--scaleFactor', help='Map scale factor', metavar='scale_factor')
@@ -393,10 +393,10 @@ class ExecutionContext(Context):
             self._vars['outMaps.valueFormat'] = exec_conf['OutMaps'].get('@valueFormat')
         if self._vars['outMaps.outputStepUnits'] is None:
             self._vars['outMaps.outputStepUnits'] = exec_conf['OutMaps'].get('@outputStepUnits')
-        if self._vars['outMaps.fmap'] == 1:
-            self._vars['outMaps.fmap'] = exec_conf['OutMaps'].get('@fmap') or 1
-        if self._vars['outMaps.ext'] == 1:
-            self._vars['outMaps.ext'] = exec_conf['OutMaps'].get('@ext') or 1
+        if self._vars['outMaps.fmap'] is None:
+            self._vars['outMaps.fmap'] = exec_conf['OutMaps'].get('@fmap', 1)
+        if self._vars['outMaps.ext'] is None:
+            self._vars['outMaps.ext'] = exec_conf['OutMaps'].get('@ext', 1)
         if self._vars['outMaps.format'] == 'notset':
             # default out format to pcraster if not set from commandline nor in execution command json
             self._vars['outMaps.format'] = exec_conf['OutMaps'].get('@format') or 'pcraster'
-- 
2.43.0


From 4f65fc7019e0aca7dfdbbe45037b90a8fd8d6ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 22/54] fix: perturbationNumber in the JSON file was ignored

---
 src/pyg2p/main/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 2fafdf2..250e76b 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -412,6 +412,9 @@ class ExecutionContext(Context):
         if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate') not in (None, ''):
             self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
 
+        if self._vars['parameter.perturbationNumber'] is None and exec_conf['Parameter'].get('@perturbationNumber') not in (None, ''):
+            self._vars['parameter.perturbationNumber'] = int(exec_conf['Parameter']['@perturbationNumber'])  # eps member
+
         self._vars['parameter.level'] = exec_conf['Parameter'].get('@level')  # number
 
         if exec_conf.get('Aggregation'):
-- 
2.43.0


From 69a554dacc518d7148baa1b8fc03e27e69518b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 23/54] fix: intertableDir and geopotentialDir of the Execution
 element, where they are documented, were ignored

---
 src/pyg2p/main/context.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 250e76b..65a52fa 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -366,12 +366,15 @@ class ExecutionContext(Context):
         self._vars['interpolation.use_broadcasting'] = interpolation_conf.get('@use_broadcasting', False)
         self._vars['interpolation.num_of_splits'] = interpolation_conf.get('@num_of_splits', None)
         self._vars['interpolation.rotated_target'] = interpolation_conf.get('@rotated_target', False)
-        if not self._vars['interpolation.dir'] and interpolation_conf.get('@intertableDir'):
+        # intertableDir and geopotentialDir belong to Execution; they are accepted in Interpolation, too
+        intertable_dir = exec_conf.get('@intertableDir') or interpolation_conf.get('@intertableDir')
+        if not self._vars['interpolation.dir'] and intertable_dir:
             # get from JSON
-            self._vars['interpolation.dirs']['user'] = interpolation_conf['@intertableDir']
-        if not self._vars['geopotential.dir'] and interpolation_conf.get('@geopotentialDir'):
+            self._vars['interpolation.dirs']['user'] = intertable_dir
+        geopotential_dir = exec_conf.get('@geopotentialDir') or interpolation_conf.get('@geopotentialDir')
+        if not self._vars['geopotential.dir'] and geopotential_dir:
             # get from JSON
-            self._vars['geopotential.dirs']['user'] = interpolation_conf['@geopotentialDir']
+            self._vars['geopotential.dirs']['user'] = geopotential_dir
         self._vars['interpolation.latMap'] = interpolation_conf['@latMap']
         self._vars['interpolation.lonMap'] = interpolation_conf['@lonMap']
 
-- 
2.43.0


From 41f3ebabf302601ee079ba5f56360d30d2ee1465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 24/54] fix: forceZeroArray true (boolean) made the run fail
 and halfweights "false" was taken as true

---
 src/pyg2p/main/api.py     | 2 +-
 src/pyg2p/main/context.py | 4 ++--
 src/pyg2p/util/strings.py | 7 +++++++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index aaf78de..741dadb 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -219,7 +219,7 @@ class ApiContext(Context):
             self._vars['aggregation.type'] = self.api_conf['Aggregation'].get('type')
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) and bool(self._vars.get('aggregation.type'))
-            self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and self.api_conf['Aggregation'].get('forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
+            self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and strings.is_set(self.api_conf['Aggregation'].get('forceZeroArray'))
 
         # string interpolation for custom user configurations (i.e. dataset folders)
         self.configuration.user.interpolate_strings(self)
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 65a52fa..1e6234b 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -423,12 +423,12 @@ class ExecutionContext(Context):
         if exec_conf.get('Aggregation'):
             self._vars['aggregation.step'] = exec_conf['Aggregation'].get('@step')
             self._vars['aggregation.type'] = exec_conf['Aggregation'].get('@type')
-            self._vars['aggregation.halfweights'] = bool(exec_conf['Aggregation'].get('@halfweights'))
+            self._vars['aggregation.halfweights'] = strings.is_set(exec_conf['Aggregation'].get('@halfweights'))
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) \
                 and bool(self._vars.get('aggregation.type'))
             self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION \
-                and exec_conf['Aggregation'].get('@forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
+                and strings.is_set(exec_conf['Aggregation'].get('@forceZeroArray'))
 
         # string interpolation for custom user configurations (i.e. dataset folders)
         self.configuration.user.interpolate_strings(self)
diff --git a/src/pyg2p/util/strings.py b/src/pyg2p/util/strings.py
index 0c2231e..28a2573 100644
--- a/src/pyg2p/util/strings.py
+++ b/src/pyg2p/util/strings.py
@@ -36,6 +36,13 @@ def to_argdict(string_):
 FALSE_STRINGS = ['FALSE', 'F', 'f', 'False', 'false', 'NO', 'no', 'No', '0', 'off', 'OFF', 'Off', 'nO']
 
 
+def is_set(option):
+    """
+    Value of an on/off option given as boolean, number or string (any string other than FALSE_STRINGS is on)
+    """
+    return str(option or False).lower() not in FALSE_STRINGS
+
+
 def now_string(fmt='%Y-%m-%d %H:%M'):
     # noinspection PyTypeChecker
     return datetime.strftime(datetime.now(), fmt)
-- 
2.43.0


From 1a8c8264f576b006c8992c9f040d2d110bb8998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 25/54] fix: a level given as a number was not accepted

---
 src/pyg2p/main/context.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 1e6234b..4b5b61b 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -118,9 +118,13 @@ class Context:
 
             # check all numbers
 
-            if self._vars['parameter.level'] and not self._vars['parameter.level'].isdigit():
+            level = self._vars['parameter.level']
+            if level in (None, ''):
+                self._vars['parameter.level'] = None
+            elif not str(level).isdigit():
                 raise ApplicationException.get_exc(NOT_A_NUMBER, 'Parameter level')
-            self._vars['parameter.level'] = int(self._vars['parameter.level']) if self._vars.get('parameter.level') else None
+            else:
+                self._vars['parameter.level'] = int(level)
 
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
-- 
2.43.0


From f5d2907dd168f3984c16d69e9259209574018d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 26/54] fix: the default unitTime was a string and a unitTime
 that is no number had no error of its own

---
 src/pyg2p/main/context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 4b5b61b..b3171e7 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -126,7 +126,12 @@ class Context:
             else:
                 self._vars['parameter.level'] = int(level)
 
-            self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
+            if self._vars['outMaps.unitTime'] is None:
+                self._vars['outMaps.unitTime'] = self.default_values['outMaps.unitTime']
+            try:
+                self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime'])
+            except ValueError:
+                raise ApplicationException.get_exc(NOT_A_NUMBER, 'OutMaps unitTime')
 
             # check tstart<=tend
             if self._vars['parameter.tstart'] is not None and self._vars['parameter.tend'] is not None and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
-- 
2.43.0


From bd3cf99430ee06a5017edcc94923107fed935803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 27/54] fix: an incomplete correction was silently left out and
 a missing DEM map had the error of geopotentials

---
 src/pyg2p/main/api.py     |  9 +++++----
 src/pyg2p/main/context.py | 13 +++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 741dadb..da138a5 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -157,11 +157,12 @@ class ApiContext(Context):
             self._vars['parameter.conversionFunction'] = conversion['@function']
             self._vars['parameter.cutoffnegative'] = strings.to_boolean(conversion.get('@cutOffNegative'))
 
-        if self.api_conf['Parameter'].get('correctionFormula') and self.api_conf['Parameter'].get('gem') and self.api_conf['Parameter'].get('demMap'):
+        # the three attributes are mandatory for a correction: it is checked in _check_exec_params
+        if self.api_conf['Parameter'].get('correctionFormula') or self.api_conf['Parameter'].get('gem') or self.api_conf['Parameter'].get('demMap'):
             self._vars['execution.doCorrection'] = True
-            self._vars['correction.formula'] = self.api_conf['Parameter']['correctionFormula']
-            self._vars['correction.gemFormula'] = self.api_conf['Parameter']['gem']
-            self._vars['correction.demMap'] = self.api_conf['Parameter']['demMap']
+            self._vars['correction.formula'] = self.api_conf['Parameter'].get('correctionFormula', '')
+            self._vars['correction.gemFormula'] = self.api_conf['Parameter'].get('gem', '')
+            self._vars['correction.demMap'] = self.api_conf['Parameter'].get('demMap', '')
             if not self._vars['geopotential.dir'] and self.api_conf.get('geopotentialDir'):
                 self._vars['geopotential.dirs']['user'] = self.api_conf['geopotentialDir']
 
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index b3171e7..80ac782 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -7,7 +7,7 @@ from .. import __version__
 from ..util import files, strings
 from .manipulation.aggregator import ACCUMULATION
 from ..exceptions import (ApplicationException, INVALID_INTERPOL_METHOD,
-                          WRONG_ARGS, NOT_A_NUMBER, NOT_EXISTING_MAPS, MISSING_INPUT_GRIB, NOT_EXISTING_INPUT_GRIB)
+                          WRONG_ARGS, NOT_A_NUMBER, NOT_EXISTING_MAPS, MISSING_INPUT_GRIB, NOT_EXISTING_INPUT_GRIB, NO_FILE_DEM)
 
 
 class Context:
@@ -143,7 +143,7 @@ class Context:
                     'correction.formula')):
                 raise ApplicationException.get_exc(4100)
             if self._vars['execution.doCorrection'] and not files.exists(self._vars['correction.demMap']):
-                raise ApplicationException.get_exc(4200, self._vars['correction.demMap'])
+                raise ApplicationException.get_exc(NO_FILE_DEM, self._vars['correction.demMap'])
 
     def geo_file(self, grid_id):
         path = self.input_file_with_geopotential
@@ -359,12 +359,13 @@ class ExecutionContext(Context):
             self._vars['parameter.conversionFunction'] = conversion['@function']
             self._vars['parameter.cutoffnegative'] = strings.to_boolean(conversion.get('@cutOffNegative'))
 
-        if exec_conf['Parameter'].get('@correctionFormula') and exec_conf['Parameter'].get('@gem') and exec_conf[
+        # the three attributes are mandatory for a correction: it is checked in _check_exec_params
+        if exec_conf['Parameter'].get('@correctionFormula') or exec_conf['Parameter'].get('@gem') or exec_conf[
             'Parameter'].get('@demMap'):
             self._vars['execution.doCorrection'] = True
-            self._vars['correction.formula'] = exec_conf['Parameter']['@correctionFormula']
-            self._vars['correction.gemFormula'] = exec_conf['Parameter']['@gem']
-            self._vars['correction.demMap'] = exec_conf['Parameter']['@demMap']
+            self._vars['correction.formula'] = exec_conf['Parameter'].get('@correctionFormula', '')
+            self._vars['correction.gemFormula'] = exec_conf['Parameter'].get('@gem', '')
+            self._vars['correction.demMap'] = exec_conf['Parameter'].get('@demMap', '')
 
         self._vars['outMaps.clone'] = exec_conf['OutMaps']['@cloneMap']
         interpolation_conf = exec_conf['OutMaps']['Interpolation']
-- 
2.43.0


From 3c9254e2ae20533cec99c077a7b11af279c1bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 28/54] fix: a missing second input file or command file was
 not refused with its error

---
 src/pyg2p/main/context.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 80ac782..bc0c817 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -94,6 +94,9 @@ class Context:
             if not files.exists(self._vars['input.file']):
                 raise ApplicationException.get_exc(NOT_EXISTING_INPUT_GRIB, self._vars['input.file'])
 
+            if self._vars['input.two_resolution'] and not files.exists(self._vars['input.file2']):
+                raise ApplicationException.get_exc(NOT_EXISTING_INPUT_GRIB, self._vars['input.file2'])
+
             if not files.exists(self._vars['interpolation.lonMap']) or not files.exists(self._vars['interpolation.latMap']):
                 raise ApplicationException.get_exc(
                     NOT_EXISTING_MAPS,
@@ -331,6 +334,9 @@ class ExecutionContext(Context):
         self._vars['execution.doCorrection'] = False
         self._vars['parameter.conversionId'] = None
 
+        if not self._input_args['commandsFile']:
+            raise ApplicationException.get_exc(0, 'use [-c, --commandsFile]')
+
         if self._input_args['commandsFile'].startswith('./') or self._input_args['commandsFile'].startswith('../'):
             self._input_args['commandsFile'] = os.path.join(os.getcwd(), self._input_args['commandsFile'])
 
-- 
2.43.0


From 1761134ac52be9ded2b83a87a2a367673569aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 29/54] fix: the configuration commands -g, -W and -K never ran

---
 src/pyg2p/main/__init__.py | 4 ++--
 src/pyg2p/main/api.py      | 2 +-
 src/pyg2p/main/context.py  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 7febe4f..02e6325 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -61,7 +61,7 @@ def config_command(exc_ctx):
     if exc_ctx.to_download_conf:  # -W
         # download configuration
         dataset = exc_ctx.get('download_configuration')
-        conf.download_data(dataset, logger)
+        conf.download_data(dataset)
         logger.info('Configuration downloaded.')
 
     elif exc_ctx.to_add_geopotential:  # -g
@@ -72,4 +72,4 @@ def config_command(exc_ctx):
 
     elif exc_ctx.to_check_conf:  # -K
         # check unused intertables (intertables that are not in configuration and can be deleted
-        conf.to_check_conf()
+        conf.check_conf()
diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index da138a5..4975206 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -122,7 +122,7 @@ class ApiContext(Context):
         self._vars['input.file2'] = self.api_conf.get('inputFile2')
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = self.api_conf.get('addGeopotential')
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = self.api_conf.get('downloadConf')
         self._vars['under_api'] = True
         self._vars['check_conf'] = self.api_conf.get('checkConf')
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index bc0c817..3de7ffb 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -86,7 +86,7 @@ class Context:
             if not files.exists(self._vars['geopotential']):
                 raise ApplicationException.get_exc(7001, self._vars['geopotential'])
 
-        else:
+        elif not (self.to_download_conf or self.to_check_conf):
 
             if not self._vars.get('input.file'):
                 raise ApplicationException.get_exc(MISSING_INPUT_GRIB)
@@ -252,7 +252,7 @@ class ExecutionContext(Context):
         self._vars['input.file2'] = parsed_args['inputFile2']
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = parsed_args['addGeopotential']
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = parsed_args['downloadConf']
         self._vars['under_api'] = parsed_args['underApi']
         self._vars['check_conf'] = parsed_args['checkConf']
-- 
2.43.0


From 0e865e573f4e1ccdf4ed04b3c2c87776d1bc60df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 30/54] fix: -K failed on the description entry and
 unregistered tables stored as .gz

---
 src/pyg2p/main/config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index f7d4f81..c33df5c 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -334,7 +334,7 @@ class Configuration(pyg2p.Loggable):
     def check_conf(self):
         # it logs all files in intertables and geopotentials paths that are not used in configuration
 
-        used_intertables = [i['filename'] for i in self.intertables.vars.values()]
+        used_intertables = [i['filename'] for i in self.intertables.vars.values() if isinstance(i, dict)]
         used_geopotentials = self.geopotentials.vars.values()
 
         intertables_folder_content = file_util.ls(self.intertables.data_path, 'npy')
@@ -351,8 +351,10 @@ class Configuration(pyg2p.Loggable):
 
         user_intertables = deepcopy(self.intertables.user_vars)
         for k, i in user_intertables.items():
+            if not isinstance(i, dict):
+                continue  # description
             fullpath = os.path.join(self.intertables.data_path, i['filename'])
-            if not file_util.exists(fullpath):
+            if not file_util.exists(fullpath) and not file_util.exists(f'{fullpath}.gz'):
                 self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
                 del self.intertables.user_vars[k]
         self.intertables.dump()
-- 
2.43.0


From 7aee16da357b8e22c8e1323e88178c1b6fe6c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 31/54] fix: closing after a run that failed before writing
 netCDF hid the error and its exit code

---
 src/pyg2p/main/__init__.py       | 3 ++-
 src/pyg2p/main/writers/netcdf.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 02e6325..df64b4e 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -51,7 +51,8 @@ def execute(exc_ctx):
         if not err.code == NO_MESSAGES:
             ret_value = 1
     finally:
-        ctrl.close()
+        if ctrl:
+            ctrl.close()
     return ret_value
 
 
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 0ac4bad..30e5590 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -175,5 +175,6 @@ class NetCDFWriter(Writer):
         return ma.masked_where(extended_mask | ma.getmaskarray(values) | np.isnan(ma.getdata(values)), ma.getdata(values), copy=False)
 
     def close(self):
-        self.nf.close()
-        self._log(f'{self.filepath} written!', 'INFO')
+        if self.nf:
+            self.nf.close()
+            self._log(f'{self.filepath} written!', 'INFO')
-- 
2.43.0


From b33a38243fbb79853946f3ea6a96826dbd940fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 32/54] fix: a run with a second resolution and no aggregation
 failed

---
 src/pyg2p/main/controller.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 2cc62ae..bc1bb62 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -123,11 +123,14 @@ class Controller(Loggable):
         change_res_step = None
         if messages.have_resolution_change():
             change_res_step = messages.change_resolution_step()
-            start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
             # we need GRIB lats and lons only for scipy interpolation
-            if self.ctx.must_do_aggregation and end_step > start_step2:
-                # second resolution manipulation
-                change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+            if self.ctx.must_do_aggregation:
+                start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
+                if end_step > start_step2:
+                    # second resolution manipulation
+                    change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+            else:
+                values = {**values, **messages.second_resolution_values()}
 
         # cutoff after interpolation
         if converter and converter.must_cut_off:
-- 
2.43.0


From b9f6c8403eeab95ea692c628d600699c856bcc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 33/54] fix: user variables with digits, in table folders or
 undefined were not handled and other braces made the run fail

---
 src/pyg2p/main/config.py  | 24 +++++++++++++-----------
 src/pyg2p/main/context.py |  4 ++--
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index c33df5c..521d161 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -29,8 +29,8 @@ class UserConfiguration(pyg2p.Loggable):
     config_dir = f'{os.path.expanduser("~")}/.pyg2p/'
     sep = '='
     comment_char = '#'
-    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap')
-    re_var = re.compile(r'{(?P<var>[a-zA-Z_]+)}')
+    conf_to_interpolate = ('correction.demMap', 'outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap', 'interpolation.cdd_map')
+    re_var = re.compile(r'{(?P<var>[a-zA-Z_][a-zA-Z0-9_]*)}')
     geopotentials_path_var = 'GEOPOTENTIALS'
     intertables_path_var = 'INTERTABLES'
 
@@ -70,15 +70,17 @@ class UserConfiguration(pyg2p.Loggable):
 
         :param ctx instance of Context
         """
-        ctx.get(self.conf_to_interpolate[0], '')
-        vars_with_variables = [var for var in self.conf_to_interpolate if self.re_var.search(ctx.get(var, ''))]
-        for var in vars_with_variables:
-            # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
-            ctx[var] = ctx[var].format(**self.vars)
-            if self.re_var.search(ctx[var]):
-                # some variables where not string-interpolated so they are missing in user configuration
-                vars_not_defined = self.re_var.findall(ctx[var])
-                raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
+        for var in self.conf_to_interpolate:
+            if ctx.get(var):
+                ctx[var] = self.interpolate(ctx[var])
+
+    def interpolate(self, string):
+        # we can have multiple variables {CONF_DIR}/{MAPS_DIR}lat.map
+        vars_not_defined = [var for var in self.re_var.findall(string) if var not in self.vars]
+        if vars_not_defined:
+            # some variables are missing in user configuration
+            raise ApplicationException.get_exc(NO_VAR_DEFINED, str(vars_not_defined))
+        return self.re_var.sub(lambda match: self.vars[match.group('var')], string)
 
 
 class BaseConfiguration(pyg2p.Loggable):
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 3de7ffb..623a553 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -386,11 +386,11 @@ class ExecutionContext(Context):
         intertable_dir = exec_conf.get('@intertableDir') or interpolation_conf.get('@intertableDir')
         if not self._vars['interpolation.dir'] and intertable_dir:
             # get from JSON
-            self._vars['interpolation.dirs']['user'] = intertable_dir
+            self._vars['interpolation.dirs']['user'] = self.configuration.user.interpolate(intertable_dir)
         geopotential_dir = exec_conf.get('@geopotentialDir') or interpolation_conf.get('@geopotentialDir')
         if not self._vars['geopotential.dir'] and geopotential_dir:
             # get from JSON
-            self._vars['geopotential.dirs']['user'] = geopotential_dir
+            self._vars['geopotential.dirs']['user'] = self.configuration.user.interpolate(geopotential_dir)
         self._vars['interpolation.latMap'] = interpolation_conf['@latMap']
         self._vars['interpolation.lonMap'] = interpolation_conf['@lonMap']
 
-- 
2.43.0


From 967e0cac206f1fe75932e7cbf33be08bb5a1d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 34/54] fix: values of user variables were cut at = and lines
 without = made every run fail

---
 src/pyg2p/main/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 521d161..5ea2f20 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -40,7 +40,7 @@ class UserConfiguration(pyg2p.Loggable):
         # create user folder .pyg2p always
         if not file_util.exists(self.config_dir, is_folder=True):
             file_util.create_dir(self.config_dir)
-        for f in os.listdir(self.config_dir):
+        for f in sorted(os.listdir(self.config_dir)):
             filepath = os.path.join(self.config_dir, f)
             # read all custom paths from ~/.pyg2p/*.conf files
             if file_util.is_conf(filepath):
@@ -57,9 +57,9 @@ class UserConfiguration(pyg2p.Loggable):
         with open(filepath, "rt") as f:
             for line in f:
                 line = line.strip()
-                if line and not line.startswith(self.comment_char):
-                    key_value = line.split(self.sep)
-                    props[key_value[0].strip()] = key_value[1].strip('" \t')
+                if line and not line.startswith(self.comment_char) and self.sep in line:
+                    key, value = line.split(self.sep, 1)
+                    props[key.strip()] = value.strip('" \t')
         return props
 
     def interpolate_strings(self, ctx):
-- 
2.43.0


From ebb0ed4ad1df134356926fc20c5d47476bc12c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 35/54] fix: adding a geopotential could replace the file of
 another one and the registry in memory was not updated

---
 src/pyg2p/main/config.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 5ea2f20..facdb48 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -143,8 +143,7 @@ class BaseConfiguration(pyg2p.Loggable):
 
     def dump(self):
         with open(self.config_file, 'w') as f:
-            user_vars = self.user_vars or '{}'
-            f.write(json.dumps(user_vars, sort_keys=True, indent=4))
+            f.write(json.dumps(self.user_vars, sort_keys=True, indent=4))
 
     def check_write(self):
         if not self.data_path:
@@ -239,10 +238,17 @@ class GeopotentialsConfiguration(BaseConfiguration):
                                                        f'File was not added: {filepath}')
 
         name = file_util.filename(filepath)
+        if name in self.vars.values():
+            # its file would replace the one of another geopotential
+            raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
+                                               details=f'There is another geopotential with file name {name}. '
+                                                       f'File was not added: {filepath}')
         self.check_write()
 
-        file_util.copy(filepath, self.data_path)
+        if os.path.abspath(os.path.dirname(filepath)) != os.path.abspath(self.data_path):
+            file_util.copy(filepath, self.data_path)
         self.user_vars[id_] = name
+        self.vars[id_] = name
         self.dump()
 
     def remove(self, filename):
@@ -250,6 +256,8 @@ class GeopotentialsConfiguration(BaseConfiguration):
             if self.user_vars[g] == filename:
                 del self.user_vars[g]
                 self.dump()
+                self.vars = self.load_global()
+                self.vars.update(self.user_vars)
                 break
 
     def get_filepath(self, grid_id, additional=None):
-- 
2.43.0


From 2ce2804e8d08f089b32aae7fb006f24c9924293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 36/54] fix: API commands lost or mixed up flags, values with =
 or blanks and the leading letters of the command

---
 src/pyg2p/main/api.py     | 10 ++++++----
 src/pyg2p/util/strings.py | 31 ++++++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 4975206..0e2f522 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -1,4 +1,5 @@
 import collections
+import re
 from functools import partial
 from pathlib import Path
 from types import MethodType
@@ -13,7 +14,7 @@ from .manipulation.correction import Corrector
 from .readers import GRIBReader, PCRasterReader
 from ..main import pyg2p_exe
 from ..util import strings
-from ..util.strings import to_argv, to_argdict
+from ..util.strings import quote, to_argv, to_argdict
 
 
 def command(*args, **kwargs):
@@ -52,15 +53,16 @@ class Command:
         return self
 
     def __init__(self, cmd_string=None, **params):
-        cmd_string = cmd_string.lstrip('pyg2p').strip()
+        cmd_string = re.sub(r'^pyg2p(\.py)?(\s|$)', '', (cmd_string or '').strip()).strip()
         if params:
             opts = params.copy()
             # string interpolation
             for var in opts:
                 opts[var] = opts[var].as_posix() if isinstance(opts[var], Path) else str(opts[var])  # as string
                 cmd_string = cmd_string.replace('{%s}' % var, opts[var])
+        self._d = to_argdict(cmd_string)
         # adding flag underApi
-        self._d = {} if not cmd_string else to_argdict(f'{cmd_string} -A')
+        self._a('-A')
         # adding log level
         if '-l' not in self._d.keys():
             self._a('-l', 'ERROR')
@@ -71,7 +73,7 @@ class Command:
     def __str__(self):
         cmd = 'pyg2p '
         self._d = collections.OrderedDict(sorted(self._d.items(), key=lambda k: k[0]))
-        args = ''.join(['%s %s ' % (key, value) for (key, value) in self._d.items()]).strip()
+        args = ' '.join(f'{key} {quote(value)}'.strip() for (key, value) in self._d.items())
         return cmd + args
 
     def run(self):
diff --git a/src/pyg2p/util/strings.py b/src/pyg2p/util/strings.py
index 28a2573..06f5bf6 100644
--- a/src/pyg2p/util/strings.py
+++ b/src/pyg2p/util/strings.py
@@ -19,18 +19,35 @@ def to_boolean(bool_):
         return bool_[0].upper() == 'T' or bool_[0].upper() == 'Y'
 
 
-def _is_empty_string(string_):
-    return string_ is not ''
-
-
 def to_argv(string_):
     c = csv.reader(csv.StringIO(string_), delimiter=" ")
-    return list(filter(_is_empty_string, list(c)[0]))
+    return [arg for row in c for arg in row if arg != '']
+
+
+def quote(arg):
+    # as to_argv needs it
+    arg = str(arg)
+    return '"{}"'.format(arg.replace('"', '""')) if re.search(r'[\s"]', arg) else arg
+
+
+def is_option(arg):
+    # negative numbers are values
+    return arg.startswith('-') and not re.match(r'-\d+$|-\d*\.\d+$', arg)
 
 
 def to_argdict(string_):
-    c = re.split(' |=', string_.strip(), maxsplit=0)
-    return dict(zip(c[0::2], c[1::2]))
+    args = {}
+    argv = to_argv(string_)
+    while argv:
+        arg = argv.pop(0)
+        if arg.startswith('--') and '=' in arg:
+            option, value = arg.split('=', 1)
+            args[option] = value
+        elif argv and not is_option(argv[0]):
+            args[arg] = argv.pop(0)
+        elif is_option(arg):
+            args[arg] = ''  # flag
+    return args
 
 
 FALSE_STRINGS = ['FALSE', 'F', 'f', 'False', 'false', 'NO', 'no', 'No', '0', 'off', 'OFF', 'Off', 'nO']
-- 
2.43.0


From c1102c758699484f9f2df46be01c6a010446b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 37/54] fix: adding a geopotential file without geopotential
 had no error of its own

---
 src/pyg2p/main/readers/grib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 4ad8949..6ca90db 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -50,6 +50,9 @@ class GRIBReader(Loggable):
     def get_id(cls, grib_file, reader_args):
         reader = GRIBReader(grib_file)
         gribs_for_id = reader._get_gids(**reader_args)
+        if not gribs_for_id:
+            reader.close()
+            raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {reader_args}')
         grid = GribGridDetails(gribs_for_id[0])
         reader.close()
         return grid.grid_id
-- 
2.43.0


From 2d50ed48336c66752df9b12906d5f471e5024343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 38/54] fix: rotated target coordinates were placed on a unit
 sphere with a wrong rotation, so every cell was out of range

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 7760424..23f5ef1 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -673,9 +673,10 @@ class ScipyInterpolation(object):
         if to_regular:
             teta = - radians((90 + self.geodetic_info.get('latitudeOfSouthernPoleInDegrees')))
             fi = - radians(self.geodetic_info.get('longitudeOfSouthernPoleInDegrees'))
-            x = ne.evaluate('(cos(teta) * cos(fi) * ({x})) + (sin(fi)  * ({y})) + (sin(teta) * cos(fi) * ({z}))'.format(x=x_formula, y=y_formula, z=z_formula))
-            y = ne.evaluate('(cos(teta) * sin(fi) * ({x})) + (cos(fi)  * ({y})) - (sin(teta) * sin(fi) * ({z}))'.format(x=x_formula, y=y_formula, z=z_formula))
-            z = ne.evaluate('(-sin(teta) * ({x})) + (cos(teta) * ({z}))'.format(x=x_formula, z=z_formula))
+            r = self.geodetic_info.get('radius')
+            x = ne.evaluate('r * ((cos(teta) * cos(fi) * ({x})) + (sin(fi)  * ({y})) + (sin(teta) * cos(fi) * ({z})))'.format(x=x_formula, y=y_formula, z=z_formula))
+            y = ne.evaluate('r * (-(cos(teta) * sin(fi) * ({x})) + (cos(fi)  * ({y})) - (sin(teta) * sin(fi) * ({z})))'.format(x=x_formula, y=y_formula, z=z_formula))
+            z = ne.evaluate('r * ((-sin(teta) * ({x})) + (cos(teta) * ({z})))'.format(x=x_formula, z=z_formula))
         elif rotate:
             teta = radians((90 + self.geodetic_info.get('latitudeOfSouthernPoleInDegrees')))
             fi = radians(self.geodetic_info.get('longitudeOfSouthernPoleInDegrees'))
-- 
2.43.0


From 95e66cd12960853e461468cf195a5ba9e0841133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 39/54] fix: target cells without coordinates were interpolated
 from an arbitrary position

---
 src/pyg2p/main/interpolation/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 1357741..dbc5016 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -251,6 +251,10 @@ class Interpolator(Loggable):
                                           use_broadcasting=self._use_broadcasting,
                                           num_of_splits=self._num_of_splits)
             _, weights, indexes = scipy_interpolation.interpolate(lonefas, latefas)            
+            # target cells without coordinates have no neighbours
+            no_coordinates = ((lonefas == self._target_coords.mv) | (latefas == self._target_coords.mv)).ravel()
+            indexes[no_coordinates] = v.size
+            weights[no_coordinates] = np.nan
             result = self._interpolate_scipy_append_mv(v, weights, indexes, nnear)
 
             # saving interpolation lookup table
-- 
2.43.0


From ff66d2c67facfa21e9d22d52d2a0232033b7650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 40/54] fix: num_of_splits failed with one neighbour and with
 more splits than target rows

---
 .../main/interpolation/scipy_interpolation_lib.py     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 23f5ef1..91a0096 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -586,11 +586,12 @@ class ScipyInterpolation(object):
                 stdout.write('KDtree find radius time (sec): {}\n'.format(checktime - start))
 
             # Define the size of the subsets, only in lonm
-            subset_size = lonefas.shape[0]//self.num_of_splits
+            subset_size = max(1, lonefas.shape[0]//self.num_of_splits)
 
             # Initialize empty arrays to store the results
-            weights = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=lonefas.dtype)
-            indexes = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=int)
+            shape = (lonefas.size,) if self.nnear == 1 else (lonefas.size, self.nnear)
+            weights = np.empty(shape,dtype=lonefas.dtype)
+            indexes = np.empty(shape,dtype=int)
             result = np.empty((lonefas.shape[0]*lonefas.shape[1]),dtype=lonefas.dtype)
 
             # Iterate over the subsets of the arrays
@@ -602,8 +603,8 @@ class ScipyInterpolation(object):
                 subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius)
 
                 # Collect the results back into the weights and indexes arrays
-                weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_weights
-                indexes[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_indexes
+                weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_weights
+                indexes[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_indexes
                 result[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_result
         
         else:
-- 
2.43.0


From b8a40766ae34d175dc2dca18204c397e6e71755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 41/54] fix: inconsistent interpolation inputs were not
 refused: the exceptions were created but never raised

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 91a0096..1ee64e1 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -553,7 +553,7 @@ class ScipyInterpolation(object):
         try:
             assert len(source_locations) == len(source_values), "len(coordinates) {} != len(values) {}".format(len(source_locations), len(source_values))
         except AssertionError as e:
-            ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
+            raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e))
 
         stdout.write('Building KDTree...\n')
         self.tree = KDTree(source_locations, leafsize=30)  # build the tree
@@ -873,7 +873,7 @@ class ScipyInterpolation(object):
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     stdout.write('\nEvaluating cutoffs...')
                     
@@ -884,7 +884,7 @@ class ScipyInterpolation(object):
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
-                        ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
 
                     if DEBUG_ADW_INTERPOLATION:
                         stdout.write('\nEvaluating cutoffs...')
@@ -909,7 +909,7 @@ class ScipyInterpolation(object):
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-                    ApplicationException.get_exc(WEIRD_STUFF, "\nCDD mode unknown={}".format(CDDmode))
+                    raise ApplicationException.get_exc(WEIRD_STUFF, details="\nCDD mode unknown={}".format(CDDmode))
 
                 # consider only TOP 10 weights instead of all:
                 if weights_mode == "OnlyTOP10":
-- 
2.43.0


From a7fb5f7a753c5103c3ea4bc4b2d72f3db1c3bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 42/54] fix: GRIB-API inverse distance: a cell on a source
 point was missing when the first source point was

---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 6f4febb..7324468 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -134,9 +134,9 @@ def _compute_coeffs_and_idxs(n_nearest):
     inv3 = (1 / n_nearest[2]['distance']) if not exact_position else 0
     inv4 = (1 / n_nearest[3]['distance']) if not exact_position else 0
     idx1 = n_nearest[0]['index'] if not exact_position else n_nearest[exact_position_idx]['index']
-    idx2 = n_nearest[1]['index'] if not exact_position else 0
-    idx3 = n_nearest[2]['index'] if not exact_position else 0
-    idx4 = n_nearest[3]['index'] if not exact_position else 0
+    idx2 = n_nearest[1]['index'] if not exact_position else idx1
+    idx3 = n_nearest[2]['index'] if not exact_position else idx1
+    idx4 = n_nearest[3]['index'] if not exact_position else idx1
     return inv1, inv2, inv3, inv4, idx1, idx2, idx3, idx4
 
 
-- 
2.43.0


From c9c8332aa1cbf9146b0450b9208f1ca153e1904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 43/54] fix: GRIB-API tables could not be built in parallel:
 GRIB handles are not valid in spawned processes

---
 .../main/interpolation/grib_interpolation_lib.py     | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 7324468..28fb2c5 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -11,7 +11,7 @@ from sys import stdout
 import eccodes
 import numexpr as ne
 import numpy as np
-from dask import bag
+from dask import bag, config as dask_config
 from dask.diagnostics import ProgressBar
 
 from ...util.generics import progress_step_and_backchar
@@ -168,8 +168,9 @@ def grib_nearest_parallel(gid, target_lats, target_lons, mv):
     apply_to_chunk_part = partial(apply_nearest_to_chunk, gid=gid, mv=mv)
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
     progress = ProgressBar(dt=10)
-    with progress:
-        result = result.compute()
+    # GRIB handles are only valid in this process and its forks
+    with progress, dask_config.set({'multiprocessing.context': 'fork'}):
+        result = result.compute(scheduler='processes')
     idxs, xs, ys = concatenate_nearest_result(nchunks, result)
     return xs, ys, idxs
 
@@ -214,8 +215,9 @@ def grib_invdist_parallel(gid, target_lats, target_lons, mv):
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
 
     progress = ProgressBar(dt=10)
-    with progress:
-        result = result.compute()
+    # GRIB handles are only valid in this process and its forks
+    with progress, dask_config.set({'multiprocessing.context': 'fork'}):
+        result = result.compute(scheduler='processes')
     idxs1, idxs2, idxs3, idxs4, xs, ys, invs1, invs2, invs3, invs4 = concatenate_invdist_result(nchunks, result)
 
     sums = ne.evaluate('invs1 + invs2 + invs3 + invs4')
-- 
2.43.0


From 8073cff790aa8f4e5b8004d961ce020481692fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 44/54] fix: GRIB-API tables: entries of cells with missing
 latitudes or NaN coordinates were wrong or shifted those of other cells

---
 .../interpolation/grib_interpolation_lib.py    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 28fb2c5..26c019d 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -21,10 +21,14 @@ from ...util.strings import now_string
 warnings.simplefilter(action='ignore', category=FutureWarning)
 
 
+def _valid_coords(lats, lons, mv):
+    return (lats > -1.0e+10) & (lats != mv) & (lons > -1.0e+10) & (lons != mv)
+
+
 def grib_nearest(gid, target_lats, target_lons, mv):
     num_cells = target_lons.size
     indices = np.indices(target_lons.shape)
-    valid_target_coords = (target_lons > -1.0e+10) & (target_lons != mv)
+    valid_target_coords = _valid_coords(target_lats, target_lons, mv)
     xs = np.where(valid_target_coords, indices[0], int_fill_value).ravel()
     ys = np.where(valid_target_coords, indices[1], int_fill_value).ravel()
     idxs = empty(num_cells, fill_value=int_fill_value, dtype=int)
@@ -41,7 +45,7 @@ def grib_nearest(gid, target_lats, target_lons, mv):
         if i % progress_step == 0:
             stdout.write(format_progress(back_char, i, num_cells, outs, i * 100. / num_cells))
             stdout.flush()
-        if not (lon <= -1.0e+10 or lon == mv):
+        if _valid_coords(lat, lon, mv):
             try:
                 n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item())
             except eccodes.GribInternalError:
@@ -63,7 +67,7 @@ def grib_nearest(gid, target_lats, target_lons, mv):
 def grib_invdist(gid, target_lats, target_lons, mv):
     num_cells = target_lons.size
     indices = np.indices(target_lons.shape)
-    valid_target_coords = (target_lons > -1.0e+10) & (target_lons != mv)
+    valid_target_coords = _valid_coords(target_lats, target_lons, mv)
     xs = np.where(valid_target_coords, indices[0], int_fill_value).ravel()
     ys = np.where(valid_target_coords, indices[1], int_fill_value).ravel()
     idxs1 = empty(num_cells, fill_value=int_fill_value, dtype=int)
@@ -87,7 +91,7 @@ def grib_invdist(gid, target_lats, target_lons, mv):
         if i % progress_step == 0:
             stdout.write(format_progress(back_char, i, num_cells, outs, i * 100. / num_cells))
             stdout.flush()
-        if not (lon < -1.0e+10 or lon == mv):
+        if _valid_coords(lat, lon, mv):
 
             try:
                 n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item(), npoints=4)
@@ -152,7 +156,7 @@ def nearest_parallel_step(chunk, gid, mv):
     lat, lon, x, y = chunk
 
     idx = int_fill_value
-    if not (lon <= -1.0e+10 or lon == mv):
+    if _valid_coords(lat, lon, mv):
         try:
             n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item())
         except eccodes.GribInternalError:
@@ -196,7 +200,7 @@ def invdist_parallel_step(chunk, gid, mv):
     lat, lon, x, y = chunk
     idx1 = idx2 = idx3 = idx4 = int_fill_value
     inv1 = inv2 = inv3 = inv4 = np.NaN
-    if not (lon < -1.0e+10 or lon == mv):
+    if _valid_coords(lat, lon, mv):
         try:
             n_nearest = eccodes.codes_grib_find_nearest(gid, lat.item(), lon.item(), npoints=4)
         except eccodes.GribInternalError:
@@ -262,7 +266,7 @@ def concatenate_invdist_result(nchunks, result):
 def init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons):
     indices = np.indices(target_lons.shape)
     npartitions = max(100, int(nchunks / 10))
-    valid_coords_mask = (target_lons > -1.0e+10) & (target_lons != mv)
+    valid_coords_mask = _valid_coords(target_lats, target_lons, mv)
     xs = np.where(valid_coords_mask, indices[0], int_fill_value).ravel()
     ys = np.where(valid_coords_mask, indices[1], int_fill_value).ravel()
     stack = np.stack((target_lats.flat, target_lons.flat, xs.flat, ys.flat))
-- 
2.43.0


From ccf903016cff273c26a3ebcb42797d8b5e053f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:39 +0000
Subject: [PATCH 45/54] fix: triangulation scaled target latitudes wrongly for
 source grids in the southern hemisphere

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 1ee64e1..af36256 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1394,7 +1394,8 @@ class ScipyInterpolation(object):
             for i in range(gribpoints_scaled.shape[0]):
                 gribpoints_scaled[i,0], error = quad(integrand, 0, np.radians(gribpoints_scaled[i,0]))
 
-            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*90*10/max(gribpoints_scaled[:,0])
+            lat_scale = 90*10/max(abs(gribpoints_scaled[:,0]))
+            gribpoints_scaled[:,0] = gribpoints_scaled[:,0]*lat_scale
 
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
@@ -1406,7 +1407,7 @@ class ScipyInterpolation(object):
         if self.source_grid_is_rotated == False:
             for i in range(target_latsORscaled[:].shape[0]):
                 target_latsORscaled[i], error = quad(integrand, 0, np.radians(target_latsORscaled[i]))
-            target_latsORscaled[:] = target_latsORscaled[:]*90*10/max(quad(integrand, 0, np.radians(max(gribpoints[:,0]))))
+            target_latsORscaled[:] = target_latsORscaled[:]*lat_scale
         
         target_latsORscaled = np.ones((1, self.target_latsOR.shape[1])) * target_latsORscaled.reshape(-1,1)
         p_scaled = np.stack((target_latsORscaled.ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
-- 
2.43.0


From f9be93897508fdd4fdf0ea332203a55a4f615ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:39 +0000
Subject: [PATCH 46/54] fix: triangulation took the latitude of the first
 column for all cells of a row

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index af36256..71c5ff8 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1400,7 +1400,8 @@ class ScipyInterpolation(object):
         tri = Delaunay(gribpoints_scaled)        
         #tri = Delaunay(gribpoints)
         p = np.stack((self.target_latsOR[:,:].ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
-        target_latsORscaled = self.target_latsOR[:,0].copy()
+        # latitudes can change along the rows of the target
+        target_latsORscaled, idxs_lats = np.unique(self.target_latsOR, return_inverse=True)
         # In case of non rotated grib files, the grid has variable number of points according to the latitude, 
         # so adjust the grid spaces for an effective triangulation
         # In case of rotated grid, instead, use the original grid points, that is fine for the spece even if it is rotaded
@@ -1409,7 +1410,7 @@ class ScipyInterpolation(object):
                 target_latsORscaled[i], error = quad(integrand, 0, np.radians(target_latsORscaled[i]))
             target_latsORscaled[:] = target_latsORscaled[:]*lat_scale
         
-        target_latsORscaled = np.ones((1, self.target_latsOR.shape[1])) * target_latsORscaled.reshape(-1,1)
+        target_latsORscaled = target_latsORscaled[idxs_lats]
         p_scaled = np.stack((target_latsORscaled.ravel(),self.target_lonsOR[:,:].ravel()),axis=-1)
 
         result = mask_it(np.empty((p.shape[0],) +
-- 
2.43.0


From e31858c3b83a66302d28fe7cd5ff85265d0d4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:39 +0000
Subject: [PATCH 47/54] fix: triangulation on global grids: the first point
 added on the border kept an index outside the source grid

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 71c5ff8..ee91900 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1514,7 +1514,7 @@ class ScipyInterpolation(object):
                         weights[nn] = np.append(np.append(np.transpose(b),1 - b.sum(axis=0)),np.zeros(nnear-3))
                         result[nn] = weights[nn,0]*z[idxs[nn,0]] + weights[nn,1]*z[idxs[nn,1]] + weights[nn,2]*z[idxs[nn,2]]
         if (is_global_map==True):
-            idxs[idxs>len(self.latgrib)]=original_indexes[idxs[idxs>len(self.latgrib)]-len(self.latgrib)]
+            idxs[idxs>=len(self.latgrib)]=original_indexes[idxs[idxs>=len(self.latgrib)]-len(self.latgrib)]
         stdout.write('{}{:>100}'.format(back_char, ' '))
         stdout.write('{}Building coeffs: {}/{} [outs: {}] (100%)\n'.format(back_char, num_cells, num_cells, outs))
         if use_bilinear:
-- 
2.43.0


From 9983cf3958331a02793efadf046e90c5e825982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:39 +0000
Subject: [PATCH 48/54] fix: bilinear_delaunay failed or stored index -1 for
 cells without a neighbour triangle

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index ee91900..a6b3fa3 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1441,7 +1441,7 @@ class ScipyInterpolation(object):
             # add the fourth point to each idxs[nn] from the near triangle on the longest side
             idxs = np.column_stack((idxs,empty(idxs.shape[0],-1,dtype=idxs.dtype)))
             idxs_tri_neighbors = tri.neighbors[idxs_tri]
-            idxs_tri_neighbors_to_use = empty(idxs_tri_neighbors.max()+1,-1,dtype=idxs_tri.dtype)
+            idxs_tri_neighbors_to_use = empty(len(tri.simplices),-1,dtype=idxs_tri.dtype)
 
         for nn in range(len(idxs_tri)):
             if nn % progress_step == 0:
@@ -1513,6 +1513,9 @@ class ScipyInterpolation(object):
                         b = tri.transform[idxs_tri[nn],:2].dot(np.transpose(p_scaled[nn] - tri.transform[idxs_tri[nn],2]))
                         weights[nn] = np.append(np.append(np.transpose(b),1 - b.sum(axis=0)),np.zeros(nnear-3))
                         result[nn] = weights[nn,0]*z[idxs[nn,0]] + weights[nn,1]*z[idxs[nn,1]] + weights[nn,2]*z[idxs[nn,2]]
+        if use_bilinear:
+            # cells in a triangle only have no fourth point: its weight is zero
+            idxs[:,3] = np.where(idxs[:,3]<0, idxs[:,0], idxs[:,3])
         if (is_global_map==True):
             idxs[idxs>=len(self.latgrib)]=original_indexes[idxs[idxs>=len(self.latgrib)]-len(self.latgrib)]
         stdout.write('{}{:>100}'.format(back_char, ' '))
-- 
2.43.0


From 5b0f2f7860c30791369ef09b79d4db0990f82b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:45 +0000
Subject: [PATCH 49/54] fix: bilinear tables of small targets used the corners
 of another cell or failed when no quadrilateral was found

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index a6b3fa3..e1961e1 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -1150,7 +1150,8 @@ class ScipyInterpolation(object):
         not_in_quad = 0     # number of points falling outside quadrilaterals after max_retries
 
         # max number of retry equals to a full lenght of lon coordinates
-        max_retries = self.target_lonsOR.shape[0]        
+        # (and small target maps need some more)
+        max_retries = max(20, self.target_lonsOR.shape[0])
         max_used_additional_points = 0
         nn_max_used_additional_points = -1
 
@@ -1317,6 +1318,8 @@ class ScipyInterpolation(object):
                     if quadrilateral_is_ok==False:
                         #print("\nError: quadrilateral_is_ok is False, failed to find a correct quadrilateral: nn is {}, lat={} lon={}".format(nn, self.lat_in, self.lon_in))
                         not_in_quad+=1
+                        # use the last corners of this point, not those of a previous one
+                        self.p1, self.p2, self.p3, self.p4 = get_clockwise_points(corners_points)
 
                     [alpha, beta] = np.clip(opt.fsolve(self._functionAlphaBeta, (0.5, 0.5)), 0, 1)
                     weight1[nn] = (1-alpha)*(1-beta)
-- 
2.43.0


From 16fa8a34a950804381fcd2580677411c7c16fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:24 +0000
Subject: [PATCH 50/54] fix: cdd_options were taken by their order in the
 command file, not by their names

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index e1961e1..42dd894 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -898,7 +898,7 @@ class ScipyInterpolation(object):
                         weights_mode = "All"
                     else:
                         # Custom values
-                        m_const, min_num_of_station, radius_ratio, weights_mode = cdd_options.values()
+                        m_const, min_num_of_station, radius_ratio, weights_mode = [cdd_options[k] for k in ('m_const', 'min_num_of_station', 'radius_ratio', 'weights_mode')]
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
-- 
2.43.0


From f500cf5be4b41c4f9eb0e825f6901c8a20c26e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:24 +0000
Subject: [PATCH 51/54] fix: cdd weights_mode OnlyTOP10 could drop the heaviest
 neighbour when weights are equal

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 42dd894..5e27d3e 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -918,7 +918,7 @@ class ScipyInterpolation(object):
                     #   rows = np.arange(s.shape[0])[:, None]
                     #   s[rows, idx[:, :-10]] = 0
                     # all in one row:
-                    s[np.arange(s.shape[0])[:, None], np.argpartition(s, 10, axis=1)[:, :-10]] = 0
+                    s[np.arange(s.shape[0])[:, None], np.argpartition(s, nnear-10, axis=1)[:, :-10]] = 0
 
 
                 
-- 
2.43.0


From 1b22d9aa8b60f043ca66cca34ffd5ae2bbd2cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 52/54] fix: cdd with num_of_splits failed or read the CDD map
 at the wrong cells

---
 .../interpolation/scipy_interpolation_lib.py  | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 5e27d3e..be055ed 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -600,7 +600,7 @@ class ScipyInterpolation(object):
                 subset_latefas = latefas[i:i+subset_size, :]
 
                 # Call the interpolate function for the subset
-                subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius)
+                subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius, lonefas, latefas, i)
 
                 # Collect the results back into the weights and indexes arrays
                 weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_weights
@@ -613,11 +613,16 @@ class ScipyInterpolation(object):
         return result, weights, indexes
 
 
-    def interpolate_split(self, target_lons, target_lats, ref_radius=None):        
+    def interpolate_split(self, target_lons, target_lats, ref_radius=None, all_lons=None, all_lats=None, first_row=0):        
         # Target coordinates  HAVE to be rotated coords in case GRIB grid is rotated
         # Example of target rotated coords are COSMO lat/lon/dem PCRASTER maps
         self.target_latsOR=target_lats
         self.target_lonsOR=target_lons
+        # whole target (the CDD map refers to it) and first row of the subset
+        self.all_lats = target_lats if all_lats is None else all_lats
+        self.all_lons = target_lons if all_lons is None else all_lons
+        first_cell = first_row * self.all_lons.shape[1]
+        self.subset_cells = slice(first_cell, first_cell + target_lons.size)
 
         start = time.time()
         if self.mode != 'triangulation' and self.mode != 'bilinear_delaunay':
@@ -871,9 +876,10 @@ class ScipyInterpolation(object):
                 if (CDDmode == 'Hofstra'):
                     CDD_map = CDD_map.ravel()
                     try:
-                        assert(len(CDD_map)==len(self.lat_inALL)) 
+                        assert(len(CDD_map)==self.all_lats.size) 
                     except AssertionError as e:
-                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), self.all_lats.size))
+                    CDD_map = CDD_map[self.subset_cells]
 
                     stdout.write('\nEvaluating cutoffs...')
                     
@@ -882,9 +888,10 @@ class ScipyInterpolation(object):
                 elif CDDmode == 'MixHofstraShepard':
                     CDD_map = CDD_map.ravel()
                     try:
-                        assert(len(CDD_map)==len(self.lat_inALL)) 
+                        assert(len(CDD_map)==self.all_lats.size) 
                     except AssertionError as e:
-                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), len(self.lat_inALL)))
+                        raise ApplicationException.get_exc(WEIRD_STUFF, details=str(e) + "\nCDD map should have the same resolution of target map. CDD map len={}, target map len={}".format(len(CDD_map), self.all_lats.size))
+                    CDD_map = CDD_map[self.subset_cells]
 
                     if DEBUG_ADW_INTERPOLATION:
                         stdout.write('\nEvaluating cutoffs...')
@@ -902,10 +909,10 @@ class ScipyInterpolation(object):
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
-                    TargetLonRes=self.target_lonsOR[0,0]-self.target_lonsOR[0,1]
-                    TargetLatRes=self.target_latsOR[0,0]-self.target_latsOR[1,0]
-                    LonOrigin=self.target_lonsOR[0,0]
-                    LatOrigin=self.target_latsOR[0,0]
+                    TargetLonRes=self.all_lons[0,0]-self.all_lons[0,1]
+                    TargetLatRes=self.all_lats[0,0]-self.all_lats[1,0]
+                    LonOrigin=self.all_lons[0,0]
+                    LatOrigin=self.all_lats[0,0]
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
-- 
2.43.0


From 33bfad37674c54143500fa2c2c7595b710cf8c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:06 +0000
Subject: [PATCH 53/54] fix: cdd mode NewEtAl failed: numba cannot compile its
 two-dimensional index of the CDD map

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index be055ed..9c6e127 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -451,7 +451,6 @@ def cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map
     return s
 
 
-@njit(parallel=True, fastmath=False, cache=True)
 def cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, longrib, latgrib, TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s):
     # New et al. 2000 
     # no search radius applied
-- 
2.43.0


From c144eafa12cb7d9012b54c7bc0350a635480e215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 54/54] fix: cdd weights were missing for cells with all their
 neighbours in one direction

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 9c6e127..0aa6d19 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -998,7 +998,8 @@ class ScipyInterpolation(object):
                 # in CDD the weight_directional should be normalized before multiply by 1+...
                 # normalize weight_directional
                 sums_weight_directional = np.sum(weight_directional, axis=1, keepdims=True)
-                weight_directional = weight_directional / sums_weight_directional
+                # (no directional weight at all when every neighbour is in the same direction)
+                weight_directional = np.divide(weight_directional, sums_weight_directional, out=np.zeros_like(weight_directional), where=sums_weight_directional != 0)
                 
             # update weights with directional ones
             if DEBUG_ADW_INTERPOLATION:
-- 
2.43.0

