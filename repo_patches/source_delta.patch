From ae20fa20db508f80297d3becb0f582417c5d85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 01/91] fix: keep missing values and packing of later files
 when concatenating

---
 cloudnetpy/concat_lib.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index a047da6..c09d723 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -229,8 +229,6 @@ class _Concat:
 
     def _append_data(self, filename: str | PathLike) -> None:
         with netCDF4.Dataset(filename) as file:
-            auto_scale = False
-            file.set_auto_scale(auto_scale)
             ind0 = len(self.concatenated_file.variables[self.concat_dimension])
             ind1 = ind0 + len(file.variables[self.concat_dimension])
             n_points = ind1 - ind0
@@ -239,7 +237,15 @@ class _Concat:
                 if key not in file.variables or key == self.interp_dim:
                     continue
 
-                array, dimensions = self._expand_array(file[key], n_points)
+                source = file.variables[key]
+                target = self.concatenated_file.variables[key]
+
+                # Raw values can be copied only if they are packed similarly
+                auto_scale = _get_packing(source) != _get_packing(target)
+                source.set_auto_scale(auto_scale)
+                target.set_auto_scale(auto_scale)
+
+                array, dimensions = self._expand_array(source, n_points)
 
                 # Nearest neighbour interpolation in the interp_dim dimension
                 # if the dimensions are not the same between the files
@@ -249,12 +255,15 @@ class _Concat:
                     x = file.variables[self.interp_dim][:]
                     x_target = self.first_file.variables[self.interp_dim][:]
                     idx = np.abs(x[:, None] - x_target[None, :]).argmin(axis=0)
-                    array = array[:, idx]
+                    array = ma.array(array[:, idx])
                     out_of_bounds = (x_target < x.min()) | (x_target > x.max())
-                    fill_value = self.first_file.variables[key].get_fill_value()
-                    array[:, out_of_bounds] = fill_value
+                    array[:, out_of_bounds] = ma.masked
+
+                # Files may use different fill values for missing data
+                if not auto_scale and ma.is_masked(array):
+                    array = array.astype(target.dtype).filled(target.get_fill_value())
 
-                self.concatenated_file.variables[key][ind0:ind1, ...] = array
+                target[ind0:ind1, ...] = array
 
     def _init_output_file(self, output_file: str | PathLike) -> netCDF4.Dataset:
         data_model: Literal["NETCDF4", "NETCDF4_CLASSIC"] = (
@@ -296,6 +305,13 @@ def _copy_attributes(
             setattr(target, attr, value)
 
 
+def _get_packing(variable: netCDF4.Variable) -> tuple:
+    return (
+        getattr(variable, "scale_factor", 1),
+        getattr(variable, "add_offset", 0),
+    )
+
+
 def _find_valid_time_indices(
     nc_old: netCDF4.Dataset,
     nc_new: netCDF4.Dataset,
-- 
2.43.0


From 26077675f3a77f63dba0f3b3a4d1aea4458a4418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 02/91] fix: truncate all dimension orders and keep packed
 values in truncate_netcdf_file

---
 cloudnetpy/concat_lib.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index c09d723..f228670 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -36,6 +36,7 @@ def truncate_netcdf_file(
             value = getattr(nc, attr)
             setattr(nc_new, attr, value)
         for key in nc.variables:
+            nc.variables[key].set_auto_scale(False)
             array = nc.variables[key][:]
             dimensions = nc.variables[key].dimensions
             fill_value = getattr(nc.variables[key], "_FillValue", None)
@@ -46,11 +47,10 @@ def truncate_netcdf_file(
                 zlib=True,
                 fill_value=fill_value,
             )
-            if dimensions and dim_name in dimensions[0]:
-                if array.ndim == 1:
-                    var[:] = array[:n_profiles]
-                if array.ndim == 2:
-                    var[:] = array[:n_profiles, :]
+            var.set_auto_scale(False)
+            if dim_name in dimensions:
+                ind = [slice(n_profiles if d == dim_name else None) for d in dimensions]
+                var[:] = array[tuple(ind)]
             else:
                 var[:] = array
             for attr in nc.variables[key].ncattrs():
-- 
2.43.0


From a811599a6eb9c1ad4f4f292cb5251633245f8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 03/91] fix: append all variables without gaps in update_nc

---
 cloudnetpy/concat_lib.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index f228670..838c279 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -325,7 +325,7 @@ def _update_fields(
     valid_ind: npt.NDArray,
 ) -> None:
     ind0 = len(nc_old.variables["time"])
-    idx = [ind0 + x for x in valid_ind]
+    ind1 = ind0 + len(valid_ind)
     concat_dimension = nc_old.variables["time"].dimensions[0]
     for field in nc_new.variables:
         if field not in nc_old.variables:
@@ -333,12 +333,9 @@ def _update_fields(
         dimensions = nc_new.variables[field].dimensions
         if concat_dimension in dimensions:
             concat_ind = dimensions.index(concat_dimension)
-            if len(dimensions) == 1:
-                nc_old.variables[field][idx] = nc_new.variables[field][valid_ind]
-            elif len(dimensions) == 2 and concat_ind == 0:
-                nc_old.variables[field][idx, :] = nc_new.variables[field][valid_ind, :]
-            elif len(dimensions) == 2 and concat_ind == 1:
-                nc_old.variables[field][:, idx] = nc_new.variables[field][:, valid_ind]
+            pre = (slice(None),) * concat_ind
+            new_data = nc_new.variables[field][(*pre, valid_ind)]
+            nc_old.variables[field][(*pre, slice(ind0, ind1))] = new_data
 
 
 def concatenate_text_files(filenames: list, output_filename: str | PathLike) -> None:
-- 
2.43.0


From 812c6437388584df7ae9fbc1c89068e30b565c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 04/91] fix: normalize cumulative amounts with several resets
 or missing first value

---
 cloudnetpy/instruments/cloudnet_instrument.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 40cabc2..fb70887 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -117,14 +117,15 @@ class CSVFile(CloudnetInstrument):
         if key not in self.data:
             return
         amount = self.data[key][:]
+        valid_ind = np.where(~ma.getmaskarray(amount))[0]
+        if len(valid_ind) == 0:
+            return
         offset = 0
-        last_valid = 0
-        for i in range(1, len(amount)):
-            if amount[i] is ma.masked:
-                continue
+        last_valid = valid_ind[0]
+        for i in valid_ind[1:]:
             if amount[i] + offset < amount[last_valid]:
-                offset += amount[last_valid]
+                offset = amount[last_valid]
             amount[i] += offset
             last_valid = i
-        amount -= amount[0]
+        amount -= amount[valid_ind[0]]
         self.data[key].data = amount
-- 
2.43.0


From a5eace2db52f5a196c7d7083fc6755d3487e198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 05/91] fix: sort rain_e_h3 records before accumulating
 rainfall

---
 cloudnetpy/instruments/rain_e_h3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/rain_e_h3.py b/cloudnetpy/instruments/rain_e_h3.py
index a2339d4..e5f3284 100644
--- a/cloudnetpy/instruments/rain_e_h3.py
+++ b/cloudnetpy/instruments/rain_e_h3.py
@@ -43,10 +43,10 @@ def rain_e_h32nc(
     rain.add_data()
     rain.add_date()
     rain.convert_units()
-    rain.normalize_cumulative_amount("rainfall_amount")
     rain.add_site_geolocation()
     rain.sort_timestamps()
     rain.remove_duplicate_timestamps()
+    rain.normalize_cumulative_amount("rainfall_amount")
     attributes = output.add_time_attribute({}, rain.date)
     output.update_attributes(rain.data, attributes)
     output.save_level1b(rain, output_file, uuid)
-- 
2.43.0


From bfcabe5c986db5e2578eb5d58d1259bee8012928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 06/91] fix: drop whole fd12p records of other dates

---
 cloudnetpy/instruments/fd12p.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/instruments/fd12p.py b/cloudnetpy/instruments/fd12p.py
index bce43f0..aa3b852 100644
--- a/cloudnetpy/instruments/fd12p.py
+++ b/cloudnetpy/instruments/fd12p.py
@@ -89,6 +89,8 @@ class FD12P(CSVFile):
                         msg = "Invalid column count"
                         raise ValueError(msg)  # noqa: TRY301
                     date = _parse_date(columns[0])
+                    if expected_date and date != expected_date:
+                        continue
                     time = _parse_time(columns[1])
                     visibility = _parse_int(columns[4])
                     synop = _parse_int(columns[7])
@@ -113,10 +115,6 @@ class FD12P(CSVFile):
             mask = np.array([math.isnan(x) for x in self._data[key]])
             self._data[key] = ma.array(values, mask=mask)
         self._data["snowfall_amount"] = self._data["snowfall_amount"].astype(np.float32)
-        if expected_date:
-            self._data["time"] = [
-                d for d in self._data["time"] if d.date() == expected_date
-            ]
         if not self._data["time"]:
             raise ValidTimeStampError
 
-- 
2.43.0


From ba6dae3fd2c33b1822661fda020e505f26a09a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 07/91] fix: read Cluj-Napoca rows with missing last values

---
 cloudnetpy/instruments/weather_station.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/weather_station.py b/cloudnetpy/instruments/weather_station.py
index be336d1..bbc62c6 100644
--- a/cloudnetpy/instruments/weather_station.py
+++ b/cloudnetpy/instruments/weather_station.py
@@ -819,7 +819,8 @@ class ClujWS(WS):
             headers = rows[0].strip().split("\t")
             raw_data: dict[str, list[str]] = {header: [] for header in headers}
             for row in rows[1:]:
-                columns = row.strip().split("\t")
+                # Rows may end with an additional tab
+                columns = row.rstrip("\n").split("\t")[: len(headers)]
                 for key, value in zip(headers, columns, strict=True):
                     raw_data[key].append(value)
         return self.format_data(
-- 
2.43.0


From 496abfc82bf0147282e8fddea632f8e4e1cdb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 08/91] fix: classify categorize files without attenuation
 amounts

---
 cloudnetpy/products/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/classification.py b/cloudnetpy/products/classification.py
index 0b31cae..7e2d105 100644
--- a/cloudnetpy/products/classification.py
+++ b/cloudnetpy/products/classification.py
@@ -180,7 +180,7 @@ def _get_radar_attenuation_status(
 def _get_attenuation_classes(data_source: DataSource) -> AttenuationClass:
     def _read_atten(key: str) -> npt.NDArray:
         if key not in data_source.dataset.variables:
-            return np.zeros(data_source.time.shape)
+            return np.zeros(data_source.dataset.variables["category_bits"].shape)
         data = data_source.getvar(key)
         if isinstance(data, ma.MaskedArray):
             return data.filled(0)
-- 
2.43.0


From a589a5fe5ef4871987a0ff5b3cd26f3b59d460d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 09/91] fix: integrate reflectivity over uneven gates in scaled
 droplet radius

---
 cloudnetpy/products/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/der.py b/cloudnetpy/products/der.py
index 68e479c..527c3eb 100644
--- a/cloudnetpy/products/der.py
+++ b/cloudnetpy/products/der.py
@@ -167,7 +167,7 @@ class DerSource(DataSource):
             if Z[ind_t, idx_layer].mask.all():
                 continue
 
-            integral = ma.sum(ma.sqrt(Z[ind_t, idx_layer])) * path_lengths[idx_layer]
+            integral = ma.sum(ma.sqrt(Z[ind_t, idx_layer]) * path_lengths[idx_layer])
 
             # der formula (5)
             A = (Z[ind_t, idx_layer] / params.N) ** (1 / 6)
-- 
2.43.0


From 380614cf03131245fb36886c866e3a52ef2b4813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 10/91] fix: leave scaled droplet radius out without positive
 liquid water path

---
 cloudnetpy/products/der.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/products/der.py b/cloudnetpy/products/der.py
index 527c3eb..6a7334e 100644
--- a/cloudnetpy/products/der.py
+++ b/cloudnetpy/products/der.py
@@ -208,9 +208,9 @@ class DerSource(DataSource):
         der_scaled_error = (
             ma.masked_less_equal(ma.masked_invalid(der_scaled_error), 0.0) * 1.0e-3
         )
-        if isinstance(lwp, ma.MaskedArray):
-            for var in (der_scaled, der_scaled_error, N_scaled):
-                var[lwp.mask] = ma.masked
+        has_lwp = ma.filled(lwp > 0, fill_value=False)
+        for var in (der_scaled, der_scaled_error, N_scaled):
+            var[~has_lwp] = ma.masked
 
         self.append_data(N_scaled, "N_scaled")
         self.append_data(der, "der")
-- 
2.43.0


From 3d0fca4a1a6734260d1693f3a2771a6ab4fdfcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 11/91] fix: adjust liquid layers in the highest gate without
 running out of gates

---
 cloudnetpy/products/lwc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/products/lwc.py b/cloudnetpy/products/lwc.py
index 80de7fc..543a875 100644
--- a/cloudnetpy/products/lwc.py
+++ b/cloudnetpy/products/lwc.py
@@ -229,13 +229,13 @@ class CloudAdjustor:
     def _adjust_lwc(self, time_ind: int, base_ind: int) -> None:
         lwc_base = self.lwc_adiabatic[time_ind, base_ind]
         distance_from_base = 1
-        while True:
+        while not self._out_of_bound(base_ind + distance_from_base - 1):
             top_ind = base_ind + distance_from_base
             lwc_top = lwc_base * (distance_from_base + 1)
             self.lwc_adiabatic[time_ind, top_ind] = lwc_top
             if not self.status[time_ind, top_ind]:
                 self.status[time_ind, top_ind] = 3
-            if self._has_converged(time_ind) or self._out_of_bound(top_ind):
+            if self._has_converged(time_ind):
                 break
             distance_from_base += 1
 
-- 
2.43.0


From acf6690370b6081a8338d8eb1ab1b5ab30ede21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 12/91] fix: recognize topmost liquid layer that starts at the
 lowest gate

---
 cloudnetpy/products/lwc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/lwc.py b/cloudnetpy/products/lwc.py
index 543a875..05e1ecf 100644
--- a/cloudnetpy/products/lwc.py
+++ b/cloudnetpy/products/lwc.py
@@ -256,7 +256,7 @@ class CloudAdjustor:
 
     def _find_topmost_clouds(self) -> npt.NDArray:
         top_clouds = np.copy(self.is_liquid)
-        cloud_edges = top_clouds[:, :-1][:, ::-1] < top_clouds[:, 1:][:, ::-1]
+        cloud_edges = atmos_utils.find_cloud_bases(top_clouds)[:, ::-1]
         topmost_bases = self.is_liquid.shape[1] - 1 - np.argmax(cloud_edges, axis=1)
         for n, base in enumerate(topmost_bases):
             top_clouds[n, :base] = 0
-- 
2.43.0


From e07a0c4d8014b32d8fcc486741a9a9b662d9ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 13/91] fix: keep diameter error of tiny drizzle when deriving
 velocity error

---
 cloudnetpy/products/drizzle_error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle_error.py b/cloudnetpy/products/drizzle_error.py
index e88b118..b0a93cf 100644
--- a/cloudnetpy/products/drizzle_error.py
+++ b/cloudnetpy/products/drizzle_error.py
@@ -112,7 +112,7 @@ def _add_supplementary_errors(
         return _stack_errors(n_error, drizzle_indices)
 
     def _calc_v_error() -> ma.MaskedArray:
-        error = results["Do_error"]
+        error = ma.copy(results["Do_error"])
         error[drizzle_indices["tiny"]] *= error[drizzle_indices["tiny"]]
         return error
 
-- 
2.43.0


From b86830e4f0ede9d208472eb09890993ced256820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:36 +0000
Subject: [PATCH 14/91] fix: do not mark drizzle retrieved where velocity
 deviation is missing

---
 cloudnetpy/products/drizzle_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/drizzle_tools.py b/cloudnetpy/products/drizzle_tools.py
index 70ff2e1..3f81580 100644
--- a/cloudnetpy/products/drizzle_tools.py
+++ b/cloudnetpy/products/drizzle_tools.py
@@ -109,7 +109,7 @@ class DrizzleClassification(ProductClassification):
     @staticmethod
     def _find_v_sigma(cat_file: str | PathLike) -> npt.NDArray:
         v_sigma = product_tools.read_nc_field(cat_file, "v_sigma")
-        return np.isfinite(v_sigma)
+        return ma.filled(np.isfinite(v_sigma), fill_value=False)
 
     def _find_warm_liquid(self) -> npt.NDArray:
         return self.category_bits.droplet & ~self.category_bits.freezing
-- 
2.43.0


From a7e958444f4001072ef73dd0d855ac3015bf54d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 15/91] fix: find freezing region when no gate is below
 freezing

---
 cloudnetpy/categorize/freezing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/freezing.py b/cloudnetpy/categorize/freezing.py
index ed87d86..8cfce16 100644
--- a/cloudnetpy/categorize/freezing.py
+++ b/cloudnetpy/categorize/freezing.py
@@ -94,7 +94,12 @@ def find_t0_alt(temperature: npt.NDArray, height: npt.NDArray) -> npt.NDArray:
     """
     alt: npt.NDArray = np.array([])
     for prof in temperature:
-        ind = np.where(prof < T0)[0][0]
+        is_subzero = prof < T0
+        if not ma.any(is_subzero):
+            # Freezing level is above the grid
+            alt = np.append(alt, 2 * height[-1] - height[-2])
+            continue
+        ind = np.where(is_subzero)[0][0]
         if ind == 0:
             alt = np.append(alt, height[0])
         else:
-- 
2.43.0


From 08bd4ca731280ace3167556d2388305512a26035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 16/91] fix: correct liquid top when no gate above is freezing

---
 cloudnetpy/categorize/droplet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/droplet.py b/cloudnetpy/categorize/droplet.py
index d310967..90af582 100644
--- a/cloudnetpy/categorize/droplet.py
+++ b/cloudnetpy/categorize/droplet.py
@@ -45,9 +45,12 @@ def correct_liquid_top(
 
 
 def _find_ind_above_top(is_freezing_from_peak: npt.NDArray, top_above: int) -> int:
+    max_ind = len(is_freezing_from_peak) - 1
+    if not np.any(is_freezing_from_peak):
+        return max_ind
     first_point_below_zero = np.where(is_freezing_from_peak)[0][0]
     ind = first_point_below_zero + top_above
-    return min(len(is_freezing_from_peak) - 1, ind)
+    return min(max_ind, ind)
 
 
 def find_liquid(
-- 
2.43.0


From 77b0855fce96110deef5b7883a50a2a3cf1df5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 17/91] fix: find no rain when echoes exist only at the highest
 gates

---
 cloudnetpy/categorize/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index 1631036..43e5078 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -108,6 +108,8 @@ class ClassData:
     def _find_rain_from_radar_echo(self) -> npt.NDArray:
         first_gate_with_data = np.argmin(self.z.mask.all(axis=0))
         gate_number = first_gate_with_data + 3
+        if gate_number >= self.z.shape[1]:
+            return np.zeros(self.time.shape, dtype=int)
         threshold = {"z": 3, "v": 0, "ldr": -15}
         z = self.z[:, gate_number]
         v = self.v[:, gate_number]
-- 
2.43.0


From 8e9259ec9709e446ece39b30491c84dbf65eb20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 18/91] fix: do not mark rain attenuation corrected without
 rainfall rate

---
 cloudnetpy/categorize/attenuations/rain_attenuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/attenuations/rain_attenuation.py b/cloudnetpy/categorize/attenuations/rain_attenuation.py
index 9ae6ced..510888e 100644
--- a/cloudnetpy/categorize/attenuations/rain_attenuation.py
+++ b/cloudnetpy/categorize/attenuations/rain_attenuation.py
@@ -48,7 +48,8 @@ def calc_rain_attenuation(
         amount=two_way_attenuation,
         error=two_way_attenuation * 0.2,
         attenuated=affected_region,
-        uncorrected=np.zeros_like(affected_region, dtype=bool),
+        uncorrected=affected_region
+        & utils.transpose(ma.getmaskarray(specific_attenuation_array)),
     )
 
 
-- 
2.43.0


From b28d4b4cf396be571ee848e5598b9dda3909919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 19/91] fix: do not mix insects at the start and end of the day

---
 cloudnetpy/categorize/classify.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/categorize/classify.py b/cloudnetpy/categorize/classify.py
index eeb39cf..c6521ce 100644
--- a/cloudnetpy/categorize/classify.py
+++ b/cloudnetpy/categorize/classify.py
@@ -273,7 +273,7 @@ def _filter_insects(bits: CategoryBits) -> None:
     for x, y in zip(*np.where(is_melting_layer), strict=True):
         try:
             # change insects to drizzle below melting layer pixel
-            ind1 = np.arange(y - n_gates, y)
+            ind1 = np.arange(max(y - n_gates, 0), y)
             ind11 = np.where(original_insects[x, ind1])[0]
             n_drizzle = sum(is_falling[x, :y])
             if n_drizzle > 5:
@@ -282,7 +282,9 @@ def _filter_insects(bits: CategoryBits) -> None:
             else:
                 continue
             # change insects on the right and left of melting layer pixel to drizzle
-            ind1 = np.arange(x - n_gates, x + n_gates + 1)
+            ind1 = np.arange(
+                max(x - n_gates, 0), min(x + n_gates + 1, original_insects.shape[0])
+            )
             ind11 = np.where(original_insects[ind1, y])[0]
             is_falling[ind1[ind11], y - 1 : y + 2] = True
             is_insects[ind1[ind11], y - 1 : y + 2] = False
-- 
2.43.0


From fd1a932ec4440896a732bca2935b19d394f3dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 20/91] fix: do not flag clutter in rain profiles

---
 cloudnetpy/categorize/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/containers.py b/cloudnetpy/categorize/containers.py
index 43e5078..e3947fa 100644
--- a/cloudnetpy/categorize/containers.py
+++ b/cloudnetpy/categorize/containers.py
@@ -166,5 +166,5 @@ def _find_clutter(
     is_clutter = np.zeros(v.shape, dtype=bool)
     filled = False
     tiny_velocity = ma.less(ma.abs(v[:, :n_gates]), v_lim).filled(filled)
-    is_clutter[:, :n_gates] = tiny_velocity * utils.transpose(~is_rain)
+    is_clutter[:, :n_gates] = tiny_velocity * utils.transpose(~is_rain.astype(bool))
     return is_clutter
-- 
2.43.0


From efc8ac098f9f4c8d54ca973996099e5588485a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 21/91] fix: search melting layer up to the topmost gate
 without failing

---
 cloudnetpy/categorize/melting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/melting.py b/cloudnetpy/categorize/melting.py
index 098723d..63a8254 100644
--- a/cloudnetpy/categorize/melting.py
+++ b/cloudnetpy/categorize/melting.py
@@ -74,7 +74,8 @@ def find_melting_layer(obs: ClassData, *, smooth: bool = True) -> npt.NDArray:
                 msg = "ldr_diff is not None but obs.ldr does not exist"
                 raise RuntimeError(msg)
             ldr_prof = obs.ldr[ind, temp_indices]
-            ldr_dprof = ldr_diff[ind, temp_indices]
+            # The topmost gate has no difference
+            ldr_dprof = ldr_diff[ind, temp_indices[temp_indices < ldr_diff.shape[1]]]
 
         if (ldr_prof is not None and ma.count(ldr_prof) > 3) or (
             v_prof is not None and ma.count(v_prof) > 3
-- 
2.43.0


From 7445dcc88374e5011b9e44a115346aa955c1aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 22/91] fix: include gas attenuation error in reflectivity
 error

---
 cloudnetpy/categorize/radar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/categorize/radar.py b/cloudnetpy/categorize/radar.py
index 3afddb2..6740919 100644
--- a/cloudnetpy/categorize/radar.py
+++ b/cloudnetpy/categorize/radar.py
@@ -273,6 +273,7 @@ class Radar(DataSource):
 
             z_error = utils.l2norm(
                 z_precision,
+                attenuations.gas.error.filled(0),
                 attenuations.liquid.error.filled(0),
                 attenuations.rain.error.filled(0),
                 attenuations.melting.error.filled(0),
-- 
2.43.0


From 2236f6de84f78c7c63d11e79d1ef66b0dd780d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 23/91] fix: report missing lidar data as no overlap instead of
 failing

---
 cloudnetpy/categorize/lidar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudnetpy/categorize/lidar.py b/cloudnetpy/categorize/lidar.py
index 4ad9066..471cddd 100644
--- a/cloudnetpy/categorize/lidar.py
+++ b/cloudnetpy/categorize/lidar.py
@@ -38,6 +38,10 @@ class Lidar(DataSource):
         # Interpolate beta to new grid but ignore profiles that are completely masked
         beta = self.data["beta"][:]
         indices = [ind for ind, b in enumerate(beta) if ma.all(b) is not ma.masked]
+        if not indices:
+            shape = (len(time_new), len(height_new))
+            self.data["beta"].data = ma.masked_all(shape, dtype=beta.dtype)
+            return list(range(len(time_new)))
         beta_interp = interpolate_2d_nearest(
             self.time[indices],
             self.height,
-- 
2.43.0


From 2ebe076fa9213dac73e314d2bd9ce07d34d2d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:56 +0000
Subject: [PATCH 24/91] fix: rebin radar files that only have prf

---
 cloudnetpy/categorize/radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/radar.py b/cloudnetpy/categorize/radar.py
index 6740919..c3cb5e5 100644
--- a/cloudnetpy/categorize/radar.py
+++ b/cloudnetpy/categorize/radar.py
@@ -54,7 +54,7 @@ class Radar(DataSource):
 
         """
         bad_time_indices = []
-        for key, array in self.data.items():
+        for key, array in list(self.data.items()):
             match key:
                 case "ldr" | "sldr" | "Z":
                     array.db2lin()
-- 
2.43.0


From 0bb28c4157b279de1a75ed6c3e4139d6bea58a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:51 +0000
Subject: [PATCH 25/91] fix: keep missing 1D data missing when rebinning

---
 cloudnetpy/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index c1a5dc6..cf62456 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -184,10 +184,10 @@ def rebin_1d(
 
     """
     edges = binvec(x_new)
-    result = ma.zeros(len(x_new))
+    result = ma.masked_all(len(x_new))
     array_screened = ma.masked_invalid(array, copy=True)  # data may contain nan-values
-    mask = ~array_screened.mask
-    if ma.any(array_screened[mask]):
+    mask = ~ma.getmaskarray(array_screened)
+    if np.any(mask):
         result, _, _ = stats.binned_statistic(
             x_in[mask],
             array_screened[mask],
-- 
2.43.0


From 49562f1248d09b3724658dcb693f2628b463d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:57 +0000
Subject: [PATCH 26/91] fix: ignore missing model levels when interpolating to
 common height

---
 cloudnetpy/categorize/model.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/cloudnetpy/categorize/model.py b/cloudnetpy/categorize/model.py
index 0387f9f..b6b4975 100644
--- a/cloudnetpy/categorize/model.py
+++ b/cloudnetpy/categorize/model.py
@@ -65,23 +65,22 @@ class Model(DataSource):
     def interpolate_to_common_height(self) -> None:
         """Interpolates model variables to common height grid."""
 
-        def _interpolate_variable(data_in: ma.MaskedArray) -> CloudnetArray:
-            datai = ma.zeros((len(self.time), len(self.mean_height)))
-            for ind, (alt, prof) in enumerate(
-                zip(self.model_heights, data_in, strict=True),
-            ):
-                if prof.mask.all():
-                    datai[ind, :] = ma.masked
-                else:
-                    fun = interp1d(alt, prof, fill_value="extrapolate")
-                    datai[ind, :] = fun(self.mean_height)
-            return CloudnetArray(datai, key, units)
-
         for key in self.fields_sparse:
             variable = self.dataset.variables[key]
             data = variable[:]
             units = variable.units
-            self.data_sparse[key] = _interpolate_variable(data)
+            self.data_sparse[key] = CloudnetArray(
+                self._to_common_height(data), key, units
+            )
+
+    def _to_common_height(self, data: npt.NDArray) -> ma.MaskedArray:
+        datai = ma.masked_all((len(self.time), len(self.mean_height)))
+        for ind, (alt, prof) in enumerate(zip(self.model_heights, data, strict=True)):
+            valid = ~ma.getmaskarray(prof)
+            if np.count_nonzero(valid) > 1:
+                fun = interp1d(alt[valid], prof[valid], fill_value="extrapolate")
+                datai[ind, :] = fun(self.mean_height)
+        return datai
 
     def interpolate_to_grid(
         self,
-- 
2.43.0


From 9bb1b6e60e535da377a6209d46d2d1091d0dd011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:57 +0000
Subject: [PATCH 27/91] fix: place attenuation at the common model heights

---
 cloudnetpy/categorize/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/categorize/model.py b/cloudnetpy/categorize/model.py
index b6b4975..333c1ca 100644
--- a/cloudnetpy/categorize/model.py
+++ b/cloudnetpy/categorize/model.py
@@ -152,15 +152,15 @@ class Model(DataSource):
         pressure = self.getvar("pressure")
         specific_humidity = self.getvar("q")
 
-        self.data_sparse["specific_liquid_atten"] = (
+        self.data_sparse["specific_liquid_atten"] = self._to_common_height(
             atmoslib.liquid_water_specific_attenuation(temperature, frequency)
         )
         vp = atmoslib.vapor_pressure(pressure, specific_humidity)
         svp = atmoslib.saturation_vapor_pressure(temperature, phase="mixed")
-        self.data_sparse["specific_gas_atten"] = atmoslib.gas_specific_attenuation(
-            temperature, pressure, vp, frequency
+        self.data_sparse["specific_gas_atten"] = self._to_common_height(
+            atmoslib.gas_specific_attenuation(temperature, pressure, vp, frequency)
         )
-        self.data_sparse["specific_saturated_gas_atten"] = (
+        self.data_sparse["specific_saturated_gas_atten"] = self._to_common_height(
             atmoslib.gas_specific_attenuation(temperature, pressure, svp, frequency)
         )
 
-- 
2.43.0


From 3b88d9b950835c5eea4dc258ad89d573ec81a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:03 +0000
Subject: [PATCH 28/91] fix: put parsivel spectrum on the right size and
 velocity classes

---
 cloudnetpy/instruments/disdrometer/parsivel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/disdrometer/parsivel.py b/cloudnetpy/instruments/disdrometer/parsivel.py
index 5dcd6a3..0a88f4f 100644
--- a/cloudnetpy/instruments/disdrometer/parsivel.py
+++ b/cloudnetpy/instruments/disdrometer/parsivel.py
@@ -123,8 +123,11 @@ class Parsivel(Disdrometer):
             values_out = values
             match key:
                 case "spectrum":
+                    # Raw spectrum contains all diameters of the first velocity
+                    # class, then all diameters of the second velocity class...
                     name = "data_raw"
                     dimensions = ["time", "diameter", "velocity"]
+                    values_out = values.swapaxes(1, 2)
                 case "number_concentration" | "fall_velocity":
                     dimensions = ["time", "diameter"]
                 case "time":
-- 
2.43.0


From ab02b19a28e57a49f6231366896d45ffe05b1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:33 +0000
Subject: [PATCH 29/91] fix: keep size and velocity classes when screening time
 stamps

---
 cloudnetpy/instruments/cloudnet_instrument.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index fb70887..14f8b12 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -68,6 +68,9 @@ class CloudnetInstrument:
             msg = "All timestamps screened"
             raise ValidTimeStampError(msg)
         for cloudnet_array in self.data.values():
+            dimensions = cloudnet_array.dimensions
+            if dimensions and dimensions[0] != "time":
+                continue
             array = cloudnet_array.data
             if not utils.isscalar(array) and array.shape[0] == n_time:
                 match array.ndim:
-- 
2.43.0


From a357f34bafac62b443b48541962bb415877d7fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:50 +0000
Subject: [PATCH 30/91] fix: infer RD-80 date from data and refuse files
 without data of the day

---
 cloudnetpy/instruments/disdrometer/rd80.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/disdrometer/rd80.py b/cloudnetpy/instruments/disdrometer/rd80.py
index a5dd5ce..62ecbbb 100644
--- a/cloudnetpy/instruments/disdrometer/rd80.py
+++ b/cloudnetpy/instruments/disdrometer/rd80.py
@@ -11,6 +11,7 @@ from cloudnetpy import output
 from cloudnetpy.cloudnetarray import CloudnetArray
 from cloudnetpy.constants import MM_TO_M, SEC_IN_HOUR
 from cloudnetpy.disdronator.rd80 import A, Dlow, Dmid, Dspr, Dupp, Vmid, read_rd80
+from cloudnetpy.exceptions import DisdrometerDataError
 from cloudnetpy.instruments import instruments
 from cloudnetpy.instruments.cloudnet_instrument import CloudnetInstrument
 from cloudnetpy.utils import get_uuid
@@ -92,9 +93,12 @@ class Rd80(CloudnetInstrument):
 
     def _screen_time(self, expected_date: datetime.date | None = None) -> None:
         if expected_date is None:
-            self.date = self.time[0].date()
+            self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
+            if not any(is_valid):
+                msg = f"No data found on {expected_date}"
+                raise DisdrometerDataError(msg)
             self.raw_time = self.raw_time[is_valid]
             for key in self.raw_data:
                 self.raw_data[key] = self.raw_data[key][is_valid]
-- 
2.43.0


From 4e7e5cda67aec26f5a385d50605bec392c3d9ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:50 +0000
Subject: [PATCH 31/91] fix: refuse wrong number of parsivel timestamps

---
 cloudnetpy/instruments/disdrometer/parsivel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudnetpy/instruments/disdrometer/parsivel.py b/cloudnetpy/instruments/disdrometer/parsivel.py
index 0a88f4f..dcbe393 100644
--- a/cloudnetpy/instruments/disdrometer/parsivel.py
+++ b/cloudnetpy/instruments/disdrometer/parsivel.py
@@ -728,6 +728,10 @@ def _read_parsivel(
         for key, values in data.items():
             combined_data[key].extend(values)
     if timestamps is not None:
+        n_records = max((len(values) for values in combined_data.values()), default=0)
+        if len(timestamps) != n_records:
+            msg = f"Expected {n_records} timestamps, got {len(timestamps)}"
+            raise DisdrometerDataError(msg)
         combined_data["_datetime"] = list(timestamps)
     result: dict = {}
     for key, value in combined_data.items():
-- 
2.43.0


From 5e4fdf1987e250631f340d261eb9c4834601e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:56 +0000
Subject: [PATCH 32/91] fix: keep parsivel records aligned when files have
 different variables

---
 cloudnetpy/instruments/disdrometer/parsivel.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/disdrometer/parsivel.py b/cloudnetpy/instruments/disdrometer/parsivel.py
index dcbe393..1335f5f 100644
--- a/cloudnetpy/instruments/disdrometer/parsivel.py
+++ b/cloudnetpy/instruments/disdrometer/parsivel.py
@@ -694,7 +694,8 @@ def _read_parsivel(
     telegram: Sequence[int | None] | None = None,
     timestamps: Sequence[datetime.datetime] | None = None,
 ) -> dict[str, npt.NDArray]:
-    combined_data = defaultdict(list)
+    combined_data: dict[str, list] = defaultdict(list)
+    n_records = 0
     for filename in filenames:
         with open(filename, encoding="latin1", errors="ignore") as file:
             content = file.read()
@@ -726,9 +727,14 @@ def _read_parsivel(
                 for date, time in zip(data["_date"], data["_time"], strict=True)
             ]
         for key, values in data.items():
+            # Pad variables missing from previous files.
+            n_missing = n_records - len(combined_data[key])
+            combined_data[key].extend([None] * n_missing)
             combined_data[key].extend(values)
-    if timestamps is not None:
         n_records = max((len(values) for values in combined_data.values()), default=0)
+        for values in combined_data.values():
+            values.extend([None] * (n_records - len(values)))
+    if timestamps is not None:
         if len(timestamps) != n_records:
             msg = f"Expected {n_records} timestamps, got {len(timestamps)}"
             raise DisdrometerDataError(msg)
-- 
2.43.0


From 911a45d3b0f2fb59ac014a86d53d98dc113ed766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:01 +0000
Subject: [PATCH 33/91] fix: take parsivel serial number from records that have
 it

---
 cloudnetpy/instruments/disdrometer/parsivel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/disdrometer/parsivel.py b/cloudnetpy/instruments/disdrometer/parsivel.py
index 1335f5f..bd89061 100644
--- a/cloudnetpy/instruments/disdrometer/parsivel.py
+++ b/cloudnetpy/instruments/disdrometer/parsivel.py
@@ -138,8 +138,9 @@ class Parsivel(Disdrometer):
                     dimensions = ["time"]
             self.data[name] = CloudnetArray(values_out, name, dimensions=dimensions)
         if "_sensor_id" in self.raw_data:
-            first_id = self.raw_data["_sensor_id"][0]
-            for sensor_id in self.raw_data["_sensor_id"]:
+            sensor_ids = ma.compressed(self.raw_data["_sensor_id"])
+            first_id = sensor_ids[0] if len(sensor_ids) > 0 else None
+            for sensor_id in sensor_ids:
                 if sensor_id != first_id:
                     msg = "Multiple sensor IDs are not supported"
                     raise DisdrometerDataError(msg)
-- 
2.43.0


From 0c91f3c47053d8e2724f679dd3a23e31a4193af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 34/91] fix: keep masks of radar files with a single profile

---
 cloudnetpy/instruments/nc_radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/nc_radar.py b/cloudnetpy/instruments/nc_radar.py
index 25ff513..4b6eb61 100644
--- a/cloudnetpy/instruments/nc_radar.py
+++ b/cloudnetpy/instruments/nc_radar.py
@@ -44,7 +44,7 @@ class NcRadar(DataSource, CloudnetInstrument):
             except KeyError:
                 logging.warning("Can not find variable %s from the input file", key)
                 continue
-            array = np.array(array) if utils.isscalar(array) else array
+            array = np.array(array) if np.ndim(array) == 0 else array
             array[~np.isfinite(array)] = ma.masked
             self.append_data(array, name)
 
-- 
2.43.0


From 3fc2c6a497fdbead1ead50052075c4dbb32fd860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 35/91] fix: never screen the range axis when screening times

---
 cloudnetpy/instruments/cloudnet_instrument.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 14f8b12..af1e8a0 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -9,6 +9,7 @@ from cloudnetpy import utils
 from cloudnetpy.cloudnetarray import CloudnetArray
 from cloudnetpy.exceptions import ValidTimeStampError
 from cloudnetpy.instruments.instruments import BASTA, FMCW35, FMCW94, HATPRO, Instrument
+from cloudnetpy.metadata import COMMON_ATTRIBUTES
 
 if TYPE_CHECKING:
     import netCDF4
@@ -67,8 +68,10 @@ class CloudnetInstrument:
         ):
             msg = "All timestamps screened"
             raise ValidTimeStampError(msg)
-        for cloudnet_array in self.data.values():
+        for key, cloudnet_array in self.data.items():
             dimensions = cloudnet_array.dimensions
+            if dimensions is None and key in COMMON_ATTRIBUTES:
+                dimensions = COMMON_ATTRIBUTES[key].dimensions
             if dimensions and dimensions[0] != "time":
                 continue
             array = cloudnet_array.data
-- 
2.43.0


From 11829013e4775667be0e08580a48321e5a9b8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 36/91] fix: ignore missing width and velocity when looking for
 corrupted Copernicus data

---
 cloudnetpy/instruments/copernicus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/copernicus.py b/cloudnetpy/instruments/copernicus.py
index d9e4af8..e709122 100644
--- a/cloudnetpy/instruments/copernicus.py
+++ b/cloudnetpy/instruments/copernicus.py
@@ -8,6 +8,7 @@ from tempfile import TemporaryDirectory
 from uuid import UUID
 
 import numpy as np
+from numpy import ma
 
 from cloudnetpy import concat_lib, output, utils
 from cloudnetpy.instruments.instruments import COPERNICUS
@@ -163,7 +164,8 @@ class Copernicus(ChilboltonRadar):
         """
         thresholds = {"width": 3, "v": 9}
         for key, value in thresholds.items():
-            ind = np.where(np.abs(self.data[key][:]) > value)
+            is_corrupted = np.abs(self.data[key][:]) > value
+            ind = np.where(ma.filled(is_corrupted, fill_value=False))
             self.data["v"].mask_indices(ind)
 
     def screen_negative_ranges(self) -> None:
-- 
2.43.0


From 8831a76275647decdb1f7ea983aa93593faf082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 37/91] fix: screen MRR angles with the times, drop repeated
 times and keep the requested date

---
 cloudnetpy/instruments/mrr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/mrr.py b/cloudnetpy/instruments/mrr.py
index 6c9894d..6892417 100644
--- a/cloudnetpy/instruments/mrr.py
+++ b/cloudnetpy/instruments/mrr.py
@@ -100,16 +100,18 @@ def mrr2nc(
         with MrrPro(input_file, site_meta) as mrr:
             mrr.init_data(keymap)
             mrr.fix_units()
+            mrr.add_zenith_angle()
             mrr.date = mrr.init_date()
             if date:
                 mrr.screen_by_date(date)
+                mrr.date = date
             mrr.add_time_and_range()
             mrr.fix_range()
+            mrr.sort_timestamps()
+            mrr.remove_duplicate_timestamps()
             mrr.add_site_geolocation()
-            mrr.add_zenith_angle()
             mrr.add_radar_specific_variables()
             mrr.add_height()
-            mrr.sort_timestamps()
         attributes = output.add_time_attribute(ATTRIBUTES, mrr.date)
         output.update_attributes(mrr.data, attributes)
         output.save_level1b(mrr, output_file, uuid)
-- 
2.43.0


From 49ad7afe030f2cf8778db5831c5a466170f9fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 38/91] fix: take midnight as end of day only when it is the
 latest time

---
 cloudnetpy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index cf62456..5723d63 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -44,7 +44,8 @@ def seconds2hours(time_in_seconds: npt.NDArray) -> npt.NDArray:
     """
     seconds_since_midnight = np.mod(time_in_seconds, SEC_IN_DAY)
     fraction_hour = seconds_since_midnight / SEC_IN_HOUR
-    if fraction_hour[-1] == 0:
+    is_last = time_in_seconds[-1] >= max(np.max(time_in_seconds), 1)
+    if fraction_hour[-1] == 0 and is_last:
         fraction_hour[-1] = 24
     return fraction_hour
 
-- 
2.43.0


From ba32d05f0134d1f8029f38c3a680cc6f688e17f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 39/91] fix: Galileo clutter is weak and depolarizing at once

---
 cloudnetpy/instruments/galileo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/instruments/galileo.py b/cloudnetpy/instruments/galileo.py
index a91323b..f7ad618 100644
--- a/cloudnetpy/instruments/galileo.py
+++ b/cloudnetpy/instruments/galileo.py
@@ -7,6 +7,7 @@ from tempfile import NamedTemporaryFile, TemporaryDirectory
 from uuid import UUID
 
 import numpy as np
+from numpy import ma
 
 from cloudnetpy import concat_lib, output, utils
 from cloudnetpy.instruments.instruments import GALILEO
@@ -131,10 +132,9 @@ class Galileo(ChilboltonRadar):
     def mask_clutter(self) -> None:
         # Only strong Z values are valid
         n_low_gates = 15
-        ind = np.where(self.data["Zh"][:, :n_low_gates] < -15) and np.where(
-            self.data["ldr"][:, :n_low_gates] > -5,
-        )
-        self.data["v"].mask_indices(ind)
+        is_weak = ma.filled(self.data["Zh"][:, :n_low_gates] < -15, fill_value=False)
+        is_high_ldr = ma.filled(self.data["ldr"][:, :n_low_gates] > -5, fill_value=False)
+        self.data["v"].mask_indices(np.where(is_weak & is_high_ldr))
 
     def screen_negative_altitudes(self) -> None:
         range_var = self.data["range"][:]
-- 
2.43.0


From c9003d289726e4cd1af7062f24deb03b286757a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 40/91] fix: do not cut Galileo time series when removing
 negative ranges

---
 cloudnetpy/instruments/galileo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/instruments/galileo.py b/cloudnetpy/instruments/galileo.py
index f7ad618..6812e53 100644
--- a/cloudnetpy/instruments/galileo.py
+++ b/cloudnetpy/instruments/galileo.py
@@ -144,10 +144,8 @@ class Galileo(ChilboltonRadar):
             raise ValueError(msg)
         if valid_idx.size == range_var.shape[0]:
             return
-        for arr in self.data.values():
-            if utils.isscalar(arr.data):
-                continue
-            if arr[:].shape[-1] == range_var.shape[0]:
+        for key, arr in self.data.items():
+            if arr.data.ndim == 2 or key == "range":
                 arr.data = arr[..., valid_idx]
 
 
-- 
2.43.0


From 67640bad64284d3b1ba82fe33713ed96b4feae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 41/91] fix: never screen the range axis of lidars when
 screening times

---
 cloudnetpy/instruments/pollyxt.py | 2 ++
 cloudnetpy/instruments/vaisala.py | 2 ++
 cloudnetpy/utils.py               | 3 ++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index 51247e5..cba7681 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -184,6 +184,8 @@ class PollyXt(Ceilometer):
     def screen_completely_masked_profiles(self) -> None:
         valid_ind = ~np.all(np.ma.getmaskarray(self.data["beta_raw"]), axis=1)
         for key, item in self.data.items():
+            if key in ("range", "height"):
+                continue
             if isinstance(item, np.ndarray) and item.shape[0] == len(valid_ind):
                 self.data[key] = item[valid_ind]
 
diff --git a/cloudnetpy/instruments/vaisala.py b/cloudnetpy/instruments/vaisala.py
index 2c1f4bb..57fd911 100644
--- a/cloudnetpy/instruments/vaisala.py
+++ b/cloudnetpy/instruments/vaisala.py
@@ -73,6 +73,8 @@ class VaisalaCeilo(Ceilometer):
             msg = "All timestamps screened"
             raise ValidTimeStampError(msg)
         for key, array in self.data.items():
+            if key == "range":
+                continue
             if hasattr(array, "shape") and array.shape[:1] == (n_time,):
                 self.data[key] = self.data[key][valid_indices]
 
diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 5723d63..ed363a4 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -972,7 +972,8 @@ def screen_by_time(
         if isinstance(array, list) and len(array) > 1:
             raise ValueError
         if (
-            isinstance(array, np.ndarray)
+            key != "range"
+            and isinstance(array, np.ndarray)
             and array.ndim > 0
             and array.shape[0] == n_time
         ):
-- 
2.43.0


From 7b3c0d7bfd4e994dba1acecccab6bd426d04f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 42/91] fix: do not spread missing lidar values to their
 surroundings when smoothing

---
 cloudnetpy/instruments/ceilometer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index 60de970..ebbf617 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -68,11 +68,19 @@ class Ceilometer:
             range_corrected=range_corrected,
             instrument=self.instrument,
         )
-        beta_raw = ma.copy(self.data["beta_raw"])
-        cloud_ind, cloud_values, cloud_limit = _estimate_clouds_from_beta(beta)
+        is_missing = ma.getmaskarray(self.data["beta_raw"])
+        beta_raw = np.where(is_missing, 0, self.data["beta_raw"])
+        cloud_ind, cloud_values, cloud_limit = _estimate_clouds_from_beta(
+            np.where(is_missing, 0, beta)
+        )
         beta_raw[cloud_ind] = cloud_limit
         sigma = calc_sigma_units(self.data["time"], self.data["range"])
         beta_raw_smooth = gaussian_filter(beta_raw, sigma)
+        if np.any(is_missing):
+            weight = gaussian_filter((~is_missing).astype(float), sigma)
+            beta_raw_smooth = ma.masked_where(
+                is_missing, beta_raw_smooth / np.where(is_missing, 1, weight)
+            )
         beta_raw_smooth[cloud_ind] = cloud_values
         return noisy_data.screen_data(
             beta_raw_smooth,
-- 
2.43.0


From 99c268dd0299c64d539f208f3da24125852d8ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 43/91] fix: take only unscreened values as clouds when
 smoothing lidar backscatter

---
 cloudnetpy/instruments/ceilometer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index ebbf617..d11388f 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -71,7 +71,7 @@ class Ceilometer:
         is_missing = ma.getmaskarray(self.data["beta_raw"])
         beta_raw = np.where(is_missing, 0, self.data["beta_raw"])
         cloud_ind, cloud_values, cloud_limit = _estimate_clouds_from_beta(
-            np.where(is_missing, 0, beta)
+            ma.filled(beta, 0)
         )
         beta_raw[cloud_ind] = cloud_limit
         sigma = calc_sigma_units(self.data["time"], self.data["range"])
-- 
2.43.0


From b946e7cd7694b68e3b298d8f535980b8cc641a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 44/91] fix: ignore missing lidar values when searching
 consecutive negatives

---
 cloudnetpy/instruments/ceilometer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index d11388f..9ac8bae 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -237,7 +237,9 @@ class NoisyData:
         n_gates: int = 95,
         n_skip_lowest: int = 5,
     ) -> npt.NDArray:
-        negative_data = data[:, n_skip_lowest : n_gates + n_skip_lowest] < 0
+        negative_data = ma.filled(
+            data[:, n_skip_lowest : n_gates + n_skip_lowest] < 0, fill_value=False
+        )
         n_consequent_negatives = utils.cumsumr(negative_data, axis=1)
         time_indices, alt_indices = np.where(n_consequent_negatives > n_negatives)
         alt_indices += n_skip_lowest
-- 
2.43.0


From 47a1b8dd0d521e83a63bbee314a929b550209992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 45/91] fix: treat not-a-number lidar backscatter as missing
 before noise screening

---
 cloudnetpy/instruments/ceilo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/instruments/ceilo.py b/cloudnetpy/instruments/ceilo.py
index b9520f2..2f2aa0a 100644
--- a/cloudnetpy/instruments/ceilo.py
+++ b/cloudnetpy/instruments/ceilo.py
@@ -101,6 +101,7 @@ def ceilo2nc(
     else:
         ceilo_obj.read_ceilometer_file(calibration_factor)
         ceilo_obj.check_beta_raw_shape()
+        ceilo_obj.screen_invalid_values()
         n_negatives = _get_n_negatives(ceilo_obj)
         ceilo_obj.data["beta"] = ceilo_obj.calc_screened_product(
             ceilo_obj.data["beta_raw"],
-- 
2.43.0


From 554557347457f629d5481d138d53a75f2d7217ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 46/91] fix: refuse lidar files where sunlight removes every
 profile

---
 cloudnetpy/instruments/ceilometer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/ceilometer.py b/cloudnetpy/instruments/ceilometer.py
index 9ac8bae..c75fb72 100644
--- a/cloudnetpy/instruments/ceilometer.py
+++ b/cloudnetpy/instruments/ceilometer.py
@@ -159,6 +159,9 @@ class Ceilometer:
         reshaped = is_data[:, : bin_size * n_bins].reshape(n_profiles, n_bins, bin_size)
 
         valid_profiles = np.any(reshaped, axis=2).sum(axis=1) < 15
+        if not np.any(valid_profiles):
+            msg = "All profiles screened"
+            raise ValidTimeStampError(msg)
 
         for key, value in self.data.items():
             if key == "time" or (isinstance(value, np.ndarray) and value.ndim == 2):
-- 
2.43.0


From 8261f04b6ad137b14f761e0ceb240d95f968c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 47/91] fix: use the zenith angle given for pollyxt

---
 cloudnetpy/instruments/pollyxt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index cba7681..e3d80c8 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -103,7 +103,7 @@ class PollyXt(Ceilometer):
 
     def fetch_zenith_angle(self) -> None:
         default = 5
-        self.data["zenith_angle"] = float(self.metadata.get("zenith_angle", default))
+        self.data["zenith_angle"] = float(self.site_meta.get("zenith_angle", default))
 
     def fetch_data(
         self, input_data: str | PathLike | Sequence[str | PathLike]
-- 
2.43.0


From 8c0d3312306e915d135f71e9989c091eba4dcbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 48/91] fix: do not let the wavelength of one pollyxt run leak
 to the next

---
 cloudnetpy/instruments/pollyxt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index e3d80c8..acf2ec8 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -5,6 +5,7 @@ import glob
 import logging
 from collections import Counter
 from collections.abc import Sequence
+from dataclasses import replace
 from fnmatch import fnmatch
 from os import PathLike
 from uuid import UUID
@@ -82,7 +83,7 @@ class PollyXt(Ceilometer):
         super().__init__()
         self.site_meta = site_meta
         self.expected_date = expected_date
-        self.instrument = instruments.POLLYXT
+        self.instrument = replace(instruments.POLLYXT)
 
     def mask_nan_values(self) -> None:
         for array in self.data.values():
-- 
2.43.0


From 9c8663bef63fe6eeafe3b3d88846ebcda1c03c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 49/91] fix: refuse pollyxt files without any valid profile

---
 cloudnetpy/instruments/pollyxt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index acf2ec8..9dcb8b6 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -184,6 +184,9 @@ class PollyXt(Ceilometer):
 
     def screen_completely_masked_profiles(self) -> None:
         valid_ind = ~np.all(np.ma.getmaskarray(self.data["beta_raw"]), axis=1)
+        if not np.any(valid_ind):
+            msg = "All pollyxt profiles are completely masked"
+            raise ValidTimeStampError(msg)
         for key, item in self.data.items():
             if key in ("range", "height"):
                 continue
-- 
2.43.0


From 18d27dd3612542e4c0a4452ef8af73363065172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 50/91] fix: expand single-valued chirp variables of rpg files
 correctly

---
 cloudnetpy/instruments/rpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/rpg.py b/cloudnetpy/instruments/rpg.py
index 44faee6..be5db4c 100644
--- a/cloudnetpy/instruments/rpg.py
+++ b/cloudnetpy/instruments/rpg.py
@@ -272,7 +272,7 @@ def _expand_time_related_fields(objects: list[Fmcw94Bin]) -> list[Fmcw94Bin]:
             # Handle outliers in latitude and longitude (e.g. Galati 2024-02-11):
             if key in ("latitude", "longitude"):
                 arr = ma.median(arr)
-            if utils.isscalar(arr):
+            if np.ndim(arr) == 0:
                 obj.header[key] = np.repeat(arr, n_time)
             else:
                 obj.header[key] = np.tile(arr, (n_time, 1))
-- 
2.43.0


From f9a4d5e717d5df16eb7d2ec645f548e7f1cf187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 51/91] fix: ignore rpg radar files without profiles

---
 cloudnetpy/instruments/rpg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/rpg.py b/cloudnetpy/instruments/rpg.py
index be5db4c..41e819f 100644
--- a/cloudnetpy/instruments/rpg.py
+++ b/cloudnetpy/instruments/rpg.py
@@ -197,6 +197,9 @@ def _get_fmcw94_objects(
     for file in files:
         try:
             obj = Fmcw94Bin(file)
+            if obj.data["time"].size == 0:
+                msg = f"Ignoring a file without profiles: {file}"
+                raise ValueError(msg)
             if expected_date is not None:
                 _validate_date(obj, expected_date)
         except (RPGFileError, TypeError, ValueError, IndexError) as err:
-- 
2.43.0


From b2ce2a2daef8559c665896f28f8b5c5f8452f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 52/91] fix: report rpg files with an incomplete header as
 invalid

---
 cloudnetpy/instruments/rpg_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/rpg_reader.py b/cloudnetpy/instruments/rpg_reader.py
index 6594155..ba7ec93 100644
--- a/cloudnetpy/instruments/rpg_reader.py
+++ b/cloudnetpy/instruments/rpg_reader.py
@@ -119,6 +119,9 @@ def _read_from_file(
     arr = np.fromfile(file, np.dtype(fields), 1 if count is None else count)
     masked_arr = ma.array(arr)
     if count is None:
+        if arr.size == 0:
+            msg = "Incomplete file header"
+            raise ValueError(msg)
         return masked_arr[0]
     return masked_arr
 
-- 
2.43.0


From a167ce8d6cb34fa7cd5918d005e4a879c61a3247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 53/91] fix: read hatpro files with exactly one record

---
 cloudnetpy/instruments/rpg_reader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/rpg_reader.py b/cloudnetpy/instruments/rpg_reader.py
index ba7ec93..48b8b99 100644
--- a/cloudnetpy/instruments/rpg_reader.py
+++ b/cloudnetpy/instruments/rpg_reader.py
@@ -229,7 +229,7 @@ class HatproBin:
 
     def _add_zenith_angle(self) -> None:
         ele, _azi = _decode_angles(self.data["_instrument_angles"], self.version)
-        self.data = rfn.append_fields(self.data, "zenith_angle", 90 - ele)
+        self.data = _append_field(self.data, "zenith_angle", 90 - ele)
 
 
 class HatproBinLwp(HatproBin):
@@ -322,7 +322,7 @@ class HatproBinCombined:
         elif len(files) == 2:
             f1, f2 = files
             arr = rfn.join_by("time", f1.data, f2.data, "outer")
-            arr = rfn.append_fields(
+            arr = _append_field(
                 arr,
                 "zenith_angle",
                 _combine_values(arr["zenith_angle1"], arr["zenith_angle2"]),
@@ -343,6 +343,17 @@ class HatproBinCombined:
         self.data = {field: arr[field] for field in arr.dtype.fields}
 
 
+def _append_field(
+    arr: ma.MaskedArray, name: str, values: ma.MaskedArray
+) -> ma.MaskedArray:
+    # rfn.append_fields fails if there is only one record.
+    output = ma.empty(arr.shape, [*arr.dtype.descr, (name, values.dtype)])
+    for field in arr.dtype.names:
+        output[field] = arr[field]
+    output[name] = values
+    return output
+
+
 def _combine_values(arr1: ma.MaskedArray, arr2: ma.MaskedArray) -> ma.MaskedArray:
     if not ma.allequal(arr1, arr2):
         msg = "Inconsistent values"
-- 
2.43.0


From f5aa5a5840bf9ed3bc0325efadf1a026e7ccb186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 54/91] fix: ignore hatpro files without records

---
 cloudnetpy/instruments/hatpro.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/hatpro.py b/cloudnetpy/instruments/hatpro.py
index 3bf21c8..9a22988 100644
--- a/cloudnetpy/instruments/hatpro.py
+++ b/cloudnetpy/instruments/hatpro.py
@@ -236,6 +236,9 @@ def _get_hatpro_objects(
                 obj = HatproBinIwv(filename)
             else:
                 continue
+            if len(obj.data) == 0:
+                msg = "No records"
+                raise ValueError(msg)
             obj.screen_bad_profiles()
             if expected_date is not None:
                 obj = _validate_date(obj, expected_date)
-- 
2.43.0


From c3ac145f11b4e5481895e6c99d88d8b81a255568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 55/91] fix: accept lower-case suffixes of hatpro files

---
 cloudnetpy/instruments/hatpro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/hatpro.py b/cloudnetpy/instruments/hatpro.py
index 9a22988..0422fa3 100644
--- a/cloudnetpy/instruments/hatpro.py
+++ b/cloudnetpy/instruments/hatpro.py
@@ -203,8 +203,8 @@ def hatpro2nc(
         date = datetime.date.fromisoformat(date)
     uuid = utils.get_uuid(uuid)
     hatpro_objects, valid_files = _get_hatpro_objects(Path(path_to_files), date)
-    is_lwp_files = any(f.suffix == ".LWP" for f in valid_files)
-    is_iwv_files = any(f.suffix == ".IWV" for f in valid_files)
+    is_lwp_files = any(f.suffix.upper() == ".LWP" for f in valid_files)
+    is_iwv_files = any(f.suffix.upper() == ".IWV" for f in valid_files)
     if not is_lwp_files:
         raise ValidTimeStampError
     if is_iwv_files:
-- 
2.43.0


From db42d18e2c9fbeff577fe6ef67f7df28a93fb989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 56/91] fix: keep each radiometrics time stamp once

---
 cloudnetpy/instruments/radiometrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/radiometrics.py b/cloudnetpy/instruments/radiometrics.py
index ab1156b..c6df7f6 100644
--- a/cloudnetpy/instruments/radiometrics.py
+++ b/cloudnetpy/instruments/radiometrics.py
@@ -361,7 +361,7 @@ class RadiometricsCombined:
             self.data[key] = self.data[key][valid_mask]
 
     def sort_timestamps(self) -> None:
-        ind = np.argsort(self.data["time"])
+        _, ind = np.unique(self.data["time"], return_index=True)
         for key in self.data:
             if key in ("range", "height"):
                 continue
-- 
2.43.0


From 1b63c8e12c0e4e741c33939392b557a99ea9e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 57/91] fix: report radiometrics files without time stamps as
 invalid

---
 cloudnetpy/instruments/radiometrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/radiometrics.py b/cloudnetpy/instruments/radiometrics.py
index c6df7f6..35d7402 100644
--- a/cloudnetpy/instruments/radiometrics.py
+++ b/cloudnetpy/instruments/radiometrics.py
@@ -348,6 +348,8 @@ class RadiometricsCombined:
 
     def screen_time(self, expected_date: datetime.date | None) -> None:
         """Screens timestamps."""
+        if len(self.data["time"]) == 0:
+            raise ValidTimeStampError
         if expected_date is None:
             self.date = self.data["time"][0].astype(object).date()
             return
-- 
2.43.0


From 330fe1091cadf4c0f98419097bc5d0995cf19682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 58/91] fix: wrap longitudes above 180 degrees

---
 cloudnetpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index ed363a4..cbd995f 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1165,7 +1165,7 @@ def add_site_geolocation(
     if "latitude" in tmp_data and "longitude" in tmp_data:
         lat = np.atleast_1d(tmp_data["latitude"])
         lon = np.atleast_1d(tmp_data["longitude"])
-        lon[lon > 180] - 360
+        lon[lon > 180] -= 360
         if _are_stationary(lat, lon):
             tmp_data["latitude"] = float(ma.mean(lat))
             tmp_data["longitude"] = float(ma.mean(lon))
-- 
2.43.0


From f0c5a6d933f9ce73bd146a6ba18eed4819ceee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 59/91] fix: keep sign and hemisphere of coordinates in global
 attributes

---
 cloudnetpy/utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index cbd995f..8a7b560 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1189,14 +1189,13 @@ def add_site_geolocation(
 
 
 def _parse_global_attribute_numeral(dataset: netCDF4.Dataset, key: str) -> float | None:
-    new_str = ""
-    attr = getattr(dataset, key)
-    if attr == "Unknown":
+    attr = str(getattr(dataset, key))
+    number = re.search(r"[-+]?\d+(\.\d*)?", attr)
+    if number is None:
         return None
-    for char in attr:
-        if char.isdigit() or char == ".":
-            new_str += char
-    return float(new_str)
+    value = float(number.group())
+    is_south_or_west = re.match(r"\W*[SW]\b", attr[number.end() :], re.IGNORECASE)
+    return -value if is_south_or_west else value
 
 
 def _are_stationary(latitude: npt.NDArray, longitude: npt.NDArray) -> bool:
-- 
2.43.0


From daaea234efb5a5d4df7a7ba68f28347169004525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 60/91] fix: L3 cloud fraction of cells without observations is
 missing, not zero

---
 .../model_evaluation/products/grid_methods.py   | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/cloudnetpy/model_evaluation/products/grid_methods.py b/cloudnetpy/model_evaluation/products/grid_methods.py
index 364209d..3a424b1 100644
--- a/cloudnetpy/model_evaluation/products/grid_methods.py
+++ b/cloudnetpy/model_evaluation/products/grid_methods.py
@@ -63,13 +63,12 @@ class ProductGrid:
                 ind = np.outer(x_ind, y_ind)
                 ind_avd = np.outer(x_ind_adv, y_ind)
                 if self._obs_obj.product == "cf":
+                    # No data in a window (e.g. masked model wind collapses the
+                    # advection window); leave the cell masked.
                     data = self._reshape_data_to_window(ind, x_ind, y_ind)
-                    if data is None:
-                        continue
-                    product_dict = self._regrid_cf(product_dict, i, j, data)
+                    if data is not None:
+                        product_dict = self._regrid_cf(product_dict, i, j, data)
                     data_adv = self._reshape_data_to_window(ind_avd, x_ind_adv, y_ind)
-                    # No advection window data (e.g. masked model wind collapses
-                    # the window); leave the cell unfilled like the standard grid.
                     if data_adv is not None:
                         product_adv_dict = self._regrid_cf(
                             product_adv_dict, i, j, data_adv
@@ -91,12 +90,12 @@ class ProductGrid:
 
     def _cf_method_storage(self) -> tuple[dict, dict]:
         cf_dict = {
-            "cf_V": ma.zeros(self._model_height.shape),
-            "cf_A": ma.zeros(self._model_height.shape),
+            "cf_V": ma.masked_all(self._model_height.shape),
+            "cf_A": ma.masked_all(self._model_height.shape),
         }
         cf_adv_dict = {
-            "cf_V_adv": ma.zeros(self._model_height.shape),
-            "cf_A_adv": ma.zeros(self._model_height.shape),
+            "cf_V_adv": ma.masked_all(self._model_height.shape),
+            "cf_A_adv": ma.masked_all(self._model_height.shape),
         }
         return cf_dict, cf_adv_dict
 
-- 
2.43.0


From b6865a2072bd654323d7e2fb30c570d034d3fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 61/91] fix: place observations of L3 files at their height
 above ground

---
 .../model_evaluation/products/observation_products.py     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/products/observation_products.py b/cloudnetpy/model_evaluation/products/observation_products.py
index 92ec848..6fc3793 100644
--- a/cloudnetpy/model_evaluation/products/observation_products.py
+++ b/cloudnetpy/model_evaluation/products/observation_products.py
@@ -67,12 +67,18 @@ class ObservationManager(DataSource):
                 self.append_data(self.getvar(self.product), self.product)
                 if self.product == "iwc":
                     self._mask_iwc()
-            self.append_data(self.getvar("height"), "height")
+            self.append_data(self._get_height(), "height")
         except (KeyError, RuntimeError):
             msg = f"Failed to read {self.product} from {self._file}"
             logging.exception(msg)
             raise
 
+    def _get_height(self) -> npt.NDArray:
+        """Returns height above ground (m), the vertical coordinate of the model."""
+        if self.height_agl is not None:
+            return self.height_agl
+        return self.getvar("height")
+
     def _generate_cf(self) -> npt.NDArray:
         """Generates cloud fractions using categorize bits and masking conditions."""
         categorize_bits = CategorizeBits(self._file)
-- 
2.43.0


From 893012214075a749e423f458f120888b26c4fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 62/91] fix: take the radar sensitivity of each model level
 from that level

---
 .../products/advance_methods.py                | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cloudnetpy/model_evaluation/products/advance_methods.py b/cloudnetpy/model_evaluation/products/advance_methods.py
index 906a1cc..0ee9519 100644
--- a/cloudnetpy/model_evaluation/products/advance_methods.py
+++ b/cloudnetpy/model_evaluation/products/advance_methods.py
@@ -4,6 +4,7 @@ import scipy.special
 import scipy.stats
 from numpy import ma
 
+import cloudnetpy.model_evaluation.products.tools as tl
 import cloudnetpy.utils as cl_tools
 from cloudnetpy.model_evaluation.model_metadata import MODEL_PREFIX
 from cloudnetpy.model_evaluation.products.model_products import ModelManager
@@ -101,14 +102,15 @@ class AdvanceProductMethods:
         if self._obs_obj.z_sensitivity is None:
             msg = "No z_sensitivity in observation file"
             raise ValueError(msg)
-        if self._obs_obj.height is None:
-            msg = "No height in observation file"
-            raise ValueError(msg)
-        z_sen = [
-            cl_tools.rebin_1d(self._obs_obj.height, self._obs_obj.z_sensitivity, h[i])
-            for i in range(len(h))
-        ]
-        return np.asarray(z_sen)
+        z_sensitivity = ma.masked_invalid(self._obs_obj.z_sensitivity)
+        z_sen = np.full(h.shape, np.nan)
+        for i in range(len(h)):
+            # Model levels are not evenly spaced.
+            edges = tl.rebin_edges(h[i])
+            for j in range(len(edges) - 1):
+                ind = tl.get_1d_indices((edges[j], edges[j + 1]), self._obs_height)
+                z_sen[i, j] = ma.filled(ma.mean(z_sensitivity[ind]), np.nan)
+        return z_sen
 
     def filter_high_iwc_low_cf(
         self,
-- 
2.43.0


From b4cd6ce84d975cbeacb0fefd25156e34de2487f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 63/91] fix: calculate wind shear of L3 files over height
 instead of time

---
 cloudnetpy/model_evaluation/products/advance_methods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/products/advance_methods.py b/cloudnetpy/model_evaluation/products/advance_methods.py
index 0ee9519..39e3159 100644
--- a/cloudnetpy/model_evaluation/products/advance_methods.py
+++ b/cloudnetpy/model_evaluation/products/advance_methods.py
@@ -159,7 +159,9 @@ class AdvanceProductMethods:
         v = self._model_obj.getvar("vwind")
         u = self.remove_extra_levels(u)
         v = self.remove_extra_levels(v)
-        w_shear = self.calculate_wind_shear(self._model_obj.wind, u, v, height)
+        w_shear = self.calculate_wind_shear(
+            self._model_obj.wind.T, u.T, v.T, height.T
+        ).T
         return self.calculate_variance_iwc(w_shear, ice_ind)
 
     def calculate_variance_iwc(
-- 
2.43.0


From 2d17c3b8c36c6091bd8759d2beb72e9a33a78d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 64/91] fix: accept doppler lidar files without missing values

---
 cloudnetpy/products/epsilon_lidar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index b4c28f4..a6123b1 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -9,6 +9,7 @@ import numpy as np
 import numpy.typing as npt
 import scipy.constants
 from doppy.product.turbulence import HorizontalWind, Options, Turbulence, VerticalWind
+from numpy import ma
 from scipy.interpolate import LinearNDInterpolator, NearestNDInterpolator
 
 import cloudnetpy
@@ -129,8 +130,8 @@ def _horizontal_wind_from_doppler_lidar_file(
         height = np.array(nc["height"][:].data, dtype=np.float64)
         uwind = np.array(nc["uwind"][:].data, dtype=np.float64)
         vwind = np.array(nc["vwind"][:].data, dtype=np.float64)
-        umask = np.array(nc["uwind"][:].mask, dtype=np.bool_)
-        vmask = np.array(nc["vwind"][:].mask, dtype=np.bool_)
+        umask = ma.getmaskarray(nc["uwind"][:])
+        vmask = ma.getmaskarray(nc["vwind"][:])
         V = np.sqrt(uwind**2 + vwind**2)
         mask = umask | vmask
         if np.all(mask):
@@ -191,9 +192,8 @@ def _vertical_wind_from_doppler_lidar_file(
         time = _datetime64_from_nc_var(nc["time"])
         height = np.array(nc["height"][:].data, dtype=np.float64)
         w = np.array(nc["v"][:].data, dtype=np.float64)
-        mask = np.array(nc["v"][:].mask, dtype=np.bool_)
-    if isinstance(mask, np.ndarray) and mask.any():
-        w[mask] = np.nan
+        mask = ma.getmaskarray(nc["v"][:])
+    w[mask] = np.nan
 
     return VerticalWind(time=time, height=height, w=w, mask=mask)
 
-- 
2.43.0


From ac6d6c447b6655f232d7ce94b24930c6e81b4fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 65/91] fix: keep the order of sources in epsilon-lidar files

---
 cloudnetpy/products/epsilon_lidar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index a6123b1..3f66433 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -100,7 +100,7 @@ def generate_epsilon_from_lidar(
             nc_src_stare, nc_out, ("latitude", "longitude", "altitude", "source")
         )
         nc_out.source_file_uuids = f"{nc_src_stare.file_uuid}, {nc_src_wind.file_uuid}"
-        sources = {nc_src_stare.source, nc_src_wind.source}
+        sources = dict.fromkeys((nc_src_stare.source, nc_src_wind.source))
         nc_out.source = ", ".join(sources)
         history = (
             f"{get_time()} - epsilon-lidar file created using doppy "
-- 
2.43.0


From a6ca7c765695c6473e2ca4860f1ee3ca4749f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 66/91] fix: do not round the sampling interval of the radar to
 seconds

---
 cloudnetpy/products/epsilon_radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/epsilon_radar.py b/cloudnetpy/products/epsilon_radar.py
index f593cd6..87fccd1 100644
--- a/cloudnetpy/products/epsilon_radar.py
+++ b/cloudnetpy/products/epsilon_radar.py
@@ -117,7 +117,7 @@ class EpsilonRadarSource(DataSource):
         radar_time = np.asarray(self.getvar("time"))
         self._radar_time = radar_time
         height = self.height
-        radar_dt_sec = float(np.round(np.median(np.diff(radar_time)) * 3600.0))
+        radar_dt_sec = float(np.round(np.median(np.diff(radar_time)) * 3600.0, 3))
 
         v = self.getvar("v")
         if isinstance(v, ma.MaskedArray):
-- 
2.43.0


From da268d6c13503a218ff8fd276e87baae029d5006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 67/91] fix: count profiles missing from the radar file as
 missing data

---
 cloudnetpy/products/epsilon_radar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/products/epsilon_radar.py b/cloudnetpy/products/epsilon_radar.py
index 87fccd1..544d98f 100644
--- a/cloudnetpy/products/epsilon_radar.py
+++ b/cloudnetpy/products/epsilon_radar.py
@@ -136,6 +136,10 @@ class EpsilonRadarSource(DataSource):
         self.time = product_time
         wind_at_product = wind_interp(product_time, height)
 
+        # Profiles missing from the file are missing data as well.
+        n_expected = int(AVERAGING_TIME_HR * 3600 / radar_dt_sec + 1e-6)
+        min_valid = max(2, int(MIN_VALID_FRACTION * n_expected))
+
         n_time = product_time.size
         n_height = height.size
         epsilon = np.full((n_time, n_height), EPSILON_INVALID, dtype=np.float64)
@@ -144,7 +148,6 @@ class EpsilonRadarSource(DataSource):
         for time_idx in range(n_time):
             after, stop = int(starts[time_idx]), int(stops[time_idx])
             time_window = radar_time[after:stop]
-            min_valid = max(2, int(MIN_VALID_FRACTION * time_window.size))
 
             for height_idx in range(n_height):
                 vel = v[after:stop, height_idx]
-- 
2.43.0


From c25c0a1923a05c06f5a2ab65d4040f6c1a4ad6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 68/91] fix: interpolate position of a moving radar across gaps

---
 cloudnetpy/products/epsilon_radar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/products/epsilon_radar.py b/cloudnetpy/products/epsilon_radar.py
index 544d98f..33a8e20 100644
--- a/cloudnetpy/products/epsilon_radar.py
+++ b/cloudnetpy/products/epsilon_radar.py
@@ -190,7 +190,7 @@ class EpsilonRadarSource(DataSource):
 
         altitude/latitude/longitude are always written as 1-D arrays on the
         product time grid: scalars from stationary radars are broadcast,
-        time-varying fields from moving platforms are rebinned.
+        time-varying fields from moving platforms are interpolated.
         """
         self.append_data(self.time, "time", dtype="f8")
         self.append_data(np.asarray(self.height, dtype=np.float32), "height")
@@ -201,7 +201,7 @@ class EpsilonRadarSource(DataSource):
             if src.ndim == 0:
                 values = np.full(self.time.size, float(src), dtype=np.float32)
             else:
-                values = utils.rebin_1d(self._radar_time, src, self.time)
+                values = np.interp(self.time, self._radar_time, src)
             self.append_data(values, key)
 
 
-- 
2.43.0


From a0ce5ae0352483b1603b5fd3f9781b96d4061264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 69/91] fix: refuse weather radar files without data of the
 requested day

---
 cloudnetpy/instruments/weather_radar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/weather_radar.py b/cloudnetpy/instruments/weather_radar.py
index 059f78a..fa68c3e 100644
--- a/cloudnetpy/instruments/weather_radar.py
+++ b/cloudnetpy/instruments/weather_radar.py
@@ -106,6 +106,8 @@ class WeatherRadar(CloudnetInstrument):
             self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
+            if not any(is_valid):
+                raise ValidTimeStampError
             self.raw_time = self.raw_time[is_valid]
             for key in self.raw_data:
                 self.raw_data[key] = self.raw_data[key][is_valid]
-- 
2.43.0


From 112c0e5095e9e2906cf36110f900540fa9c3c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 70/91] fix: name the observation in titles of level 3
 statistics

---
 cloudnetpy/model_evaluation/plotting/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cloudnetpy/model_evaluation/plotting/plotting.py b/cloudnetpy/model_evaluation/plotting/plotting.py
index 936b98b..41bb7c8 100644
--- a/cloudnetpy/model_evaluation/plotting/plotting.py
+++ b/cloudnetpy/model_evaluation/plotting/plotting.py
@@ -272,8 +272,7 @@ def get_statistic_plots(config: L3PlotConfig, names: list) -> tuple:
                     "aerror" if config.product == "cf" and stat == "error" else stat
                 )
                 if j > 0:
-                    name_new = ""
-                    name_new = _get_stat_titles(name_new, config.product, variable_info)
+                    name_new = _get_stat_titles(name, config.product, variable_info)
                     day_stat = DayStatistics(
                         statistics,
                         [config.product, config.model_name, name_new],
-- 
2.43.0


From 1ebc0e0f418c66509aebde9cc3e6b1eca7cadb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 71/91] fix: compare each observation with the whole model
 field in level 3 statistics

---
 cloudnetpy/model_evaluation/plotting/plotting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/model_evaluation/plotting/plotting.py b/cloudnetpy/model_evaluation/plotting/plotting.py
index 41bb7c8..9937cf6 100644
--- a/cloudnetpy/model_evaluation/plotting/plotting.py
+++ b/cloudnetpy/model_evaluation/plotting/plotting.py
@@ -272,11 +272,13 @@ def get_statistic_plots(config: L3PlotConfig, names: list) -> tuple:
                     "aerror" if config.product == "cf" and stat == "error" else stat
                 )
                 if j > 0:
+                    # Statistics mask values in place.
+                    model = model_data.copy()
                     name_new = _get_stat_titles(name, config.product, variable_info)
                     day_stat = DayStatistics(
                         statistics,
                         [config.product, config.model_name, name_new],
-                        model_data,
+                        model,
                         data,
                     )
                     _check_data2()
@@ -286,7 +288,7 @@ def get_statistic_plots(config: L3PlotConfig, names: list) -> tuple:
                         ax[j - 1],
                         statistics,
                         day_stat,
-                        model_data,
+                        model,
                         data,
                         (x, y),
                         variable_info,
-- 
2.43.0


From 91aa030aa67103c0de900de755fcfc278246541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 72/91] fix: use the same colors in all level 3 area figures

---
 cloudnetpy/model_evaluation/plotting/plotting.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/cloudnetpy/model_evaluation/plotting/plotting.py b/cloudnetpy/model_evaluation/plotting/plotting.py
index 9937cf6..5cf7c76 100644
--- a/cloudnetpy/model_evaluation/plotting/plotting.py
+++ b/cloudnetpy/model_evaluation/plotting/plotting.py
@@ -425,17 +425,10 @@ def plot_data_area(
 
     colors = mpl.colormaps["YlGnBu"]
     newcolors = colors(np.linspace(0, 1, 256))
-    c_map = {
-        0: "white",
-        1: "khaki",
-        2: newcolors[90],
-        3: newcolors[140],
-    }
-    unique_values = sorted(np.unique(data))
-    c_list = [c_map[value] for value in unique_values if value in c_map]
-    cmap = ListedColormap(c_list)
+    # Colors for no data, model only, both, and observation only.
+    cmap = ListedColormap(["white", "khaki", newcolors[90], newcolors[140]])
 
-    ax.pcolormesh(*axes, data, cmap=cmap)
+    ax.pcolormesh(*axes, data, cmap=cmap, vmin=0, vmax=3)
 
     if title:
         ax.set_title(f"{day_stat.title}", fontsize=14)
-- 
2.43.0


From da48bb7010482c9a077330bb23d9708595d5191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 73/91] fix: average wind direction only where wind speed is
 known

Missing wind speeds entered the average as fill values, so that the averaged
direction next to them followed the profiles whose speed is unknown.
---
 cloudnetpy/plotting/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/plotting/plotting.py b/cloudnetpy/plotting/plotting.py
index 32c91e6..9d66b67 100644
--- a/cloudnetpy/plotting/plotting.py
+++ b/cloudnetpy/plotting/plotting.py
@@ -1023,8 +1023,9 @@ class Plot1D(Plot):
 
         is_wind_direction = self.sub_plot.variable.name == "wind_direction"
         if is_wind_direction:
-            wind_speed = figure_data.file["wind_speed"]
-            data = np.stack([wind_speed, data], axis=1)
+            wind_speed = figure_data.file["wind_speed"][:]
+            is_invalid |= ma.getmaskarray(wind_speed)
+            data = ma.stack([wind_speed, data], axis=1)
 
         block_ind = np.where(np.diff(is_invalid))[0] + 1
         valid_time_blocks = np.split(time, block_ind)[int(is_invalid[0]) :: 2]
-- 
2.43.0


From 7ca482713b9a008feac58a4f465756fa08b530a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 74/91] fix: mark cloud tops and rain in the panel they belong
 to

In figures of several variables the marks depended on the first variable:
panels beside cloud top height were marked with its status, and cloud top
height or signal source status in a later panel were not marked at all.
---
 cloudnetpy/plotting/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/plotting/plotting.py b/cloudnetpy/plotting/plotting.py
index 9d66b67..f9a9038 100644
--- a/cloudnetpy/plotting/plotting.py
+++ b/cloudnetpy/plotting/plotting.py
@@ -664,7 +664,7 @@ class Plot2D(Plot):
         if figure_data.is_mwrpy_product():
             self._fill_flagged_data(figure_data)
 
-        if figure_data.variables[0].name == "signal_source_status":
+        if self.sub_plot.variable.name == "signal_source_status":
             self._indicate_rainy_profiles(figure_data)
 
     def _indicate_rainy_profiles(self, figure_data: FigureData) -> None:
@@ -869,7 +869,7 @@ class Plot1D(Plot):
                 self._plot_flag_data(figure_data.time[flags], self._data_orig[flags])
                 self._add_legend()
         if (
-            figure_data.variables[0].name == "cloud_top_height_agl"
+            self.sub_plot.variable.name == "cloud_top_height_agl"
             and "cloud_top_height_status" in figure_data.file.variables
         ):
             legend: tuple = ()
-- 
2.43.0


From bf236b15580fcedf22c2b3864f6705425416f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 75/91] fix: leave no partial records of a damaged file when
 merging

A file that turned out to be damaged was skipped, but its records had already
been appended for the variables read before the damaged one.
---
 cloudnetpy/concat_lib.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 838c279..a3c1bef 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -232,6 +232,7 @@ class _Concat:
             ind0 = len(self.concatenated_file.variables[self.concat_dimension])
             ind1 = ind0 + len(file.variables[self.concat_dimension])
             n_points = ind1 - ind0
+            new_data = []
 
             for key in self.concatenated_file.variables:
                 if key not in file.variables or key == self.interp_dim:
@@ -263,6 +264,10 @@ class _Concat:
                 if not auto_scale and ma.is_masked(array):
                     array = array.astype(target.dtype).filled(target.get_fill_value())
 
+                new_data.append((target, array))
+
+            # Reading may fail, so write nothing before everything is read
+            for target, array in new_data:
                 target[ind0:ind1, ...] = array
 
     def _init_output_file(self, output_file: str | PathLike) -> netCDF4.Dataset:
-- 
2.43.0


From 07c25ee0032139688698744bca1e277b44122805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 76/91] fix: leave the old file as it was when the appended
 file is damaged

A damaged variable in the new file aborted the update after some variables
had been extended.
---
 cloudnetpy/concat_lib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index a3c1bef..c181f9d 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -83,7 +83,7 @@ def update_nc(old_file: str, new_file: str) -> int:
                 _update_fields(nc_old, nc_new, valid_ind)
                 return 1
             return 0
-    except OSError:
+    except (OSError, RuntimeError):  # RuntimeError if the file is damaged
         return 0
 
 
@@ -332,6 +332,7 @@ def _update_fields(
     ind0 = len(nc_old.variables["time"])
     ind1 = ind0 + len(valid_ind)
     concat_dimension = nc_old.variables["time"].dimensions[0]
+    new_fields = []
     for field in nc_new.variables:
         if field not in nc_old.variables:
             continue
@@ -340,7 +341,10 @@ def _update_fields(
             concat_ind = dimensions.index(concat_dimension)
             pre = (slice(None),) * concat_ind
             new_data = nc_new.variables[field][(*pre, valid_ind)]
-            nc_old.variables[field][(*pre, slice(ind0, ind1))] = new_data
+            new_fields.append((field, (*pre, slice(ind0, ind1)), new_data))
+    # Reading may fail, so write nothing before everything is read
+    for field, ind, new_data in new_fields:
+        nc_old.variables[field][ind] = new_data
 
 
 def concatenate_text_files(filenames: list, output_filename: str | PathLike) -> None:
-- 
2.43.0


From 0461801893ae5f24120a9c6850c1d03f0ecf5b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 77/91] fix: skip damaged files when bundling and report only
 the used ones

---
 cloudnetpy/concat_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index c181f9d..e5cb568 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -384,14 +384,14 @@ def bundle_netcdf_files(
                 time = nc.variables["time"]
                 time_array = time[:]
                 time_units = time.units
-        except OSError:
+        except (OSError, RuntimeError):  # RuntimeError if the file is damaged
             continue
         epoch = utils.get_epoch(time_units)
         for timestamp in time_array:
             if utils.seconds2date(timestamp, epoch).date() == date:
                 valid_files.append(file)
                 break
-    concatenate_files(
+    used_files = concatenate_files(
         valid_files,
         output_file,
         concat_dimension=concat_dimension,
@@ -404,4 +404,4 @@ def bundle_netcdf_files(
             "Max_LWP",
         ],
     )
-    return valid_files
+    return [file for file in valid_files if Path(file) in used_files]
-- 
2.43.0


From 5bfe723270432cded1414f53baf9a258dea7f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 78/91] fix: use the mwr file of the same run in categorize

---
 cloudnetpy/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index db40214..d52d465 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -234,9 +234,10 @@ def _process_categorize(
 
     # MWR runs after other downloads because its fallback chain may
     # try to download the same radar file fetched above.
-    mwr_key, mwr_path = fetch_mwr()
-    if mwr_path:
-        input_files[mwr_key] = mwr_path
+    if "mwr" not in input_files:
+        mwr_key, mwr_path = fetch_mwr()
+        if mwr_path:
+            input_files[mwr_key] = mwr_path
 
     if "model" not in input_files:
         logging.info("No model data available for this date.")
-- 
2.43.0


From bc0071022bd995dbb0ef98454bf0dbe3a8b81f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 79/91] fix: process no derived products with --dl

---
 cloudnetpy/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index d52d465..fc7664f 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -70,6 +70,9 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             _plot(output_filepath, product, args)
             cat_files[product] = output_filepath
 
+    if args.dl:
+        return
+
     prod_sources = _get_product_sources(args.products, client)
 
     # Categorize based products
-- 
2.43.0


From 4dc797e84646490b02d519b5f1ff6d48faa207ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 80/91] fix: use the mwr-single file of the same run in
 categorize

---
 cloudnetpy/cli.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index fc7664f..117ee5c 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -75,8 +75,25 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
 
     prod_sources = _get_product_sources(args.products, client)
 
+    # MWR-L1c based products
+    mwrpy_products = [p for p in prod_sources if "mwr-l1c" in prod_sources[p]]
+    mwrpy_files = {}
+    for product in mwrpy_products:
+        if "mwr-l1c" in cat_files:
+            mwrpy_filepath = cat_files.get("mwr-l1c")
+        else:
+            mwrpy_filepath = _fetch_product(args, "mwr-l1c", client)
+        if mwrpy_filepath is None:
+            logging.info("No MWR-L1c data available for %s", product)
+            break
+        l2_filename = _process_mwrpy_product(product, mwrpy_filepath, args)
+        mwrpy_files[product] = l2_filename
+        _plot(l2_filename, product, args)
+
     # Categorize based products
     if "categorize" in args.products:
+        if "mwr-single" in mwrpy_files:
+            cat_files["mwr"] = mwrpy_files["mwr-single"]
         cat_filepath = _process_categorize(cat_files, instrument_prefs, args, client)
         _plot(cat_filepath, "categorize", args)
     else:
@@ -91,19 +108,6 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
         l2_filename = _process_cat_product(product, cat_filepath)
         _plot(l2_filename, product, args)
 
-    # MWR-L1c based products
-    mwrpy_products = [p for p in prod_sources if "mwr-l1c" in prod_sources[p]]
-    for product in mwrpy_products:
-        if "mwr-l1c" in cat_files:
-            mwrpy_filepath = cat_files.get("mwr-l1c")
-        else:
-            mwrpy_filepath = _fetch_product(args, "mwr-l1c", client)
-        if mwrpy_filepath is None:
-            logging.info("No MWR-L1c data available for %s", product)
-            break
-        l2_filename = _process_mwrpy_product(product, mwrpy_filepath, args)
-        _plot(l2_filename, product, args)
-
     # Radar + model based products (e.g. epsilon-radar)
     if "epsilon-radar" in args.products:
         epsilon_filepath = _process_epsilon_radar(cat_files, args, client)
-- 
2.43.0


From 16d3b2680d6652473323f28a3d09f2d37b11bdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 81/91] fix: consider a preferred PID also next to instrument
 IDs

---
 cloudnetpy/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 117ee5c..b1da46e 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -472,7 +472,10 @@ def _get_source_instruments(
         if model is not None:
             models = [model]
         else:
-            models = [p for p in instrument_prefs.get(prod, []) if not _is_pid(p)]
+            models = instrument_prefs.get(prod, [])
+            if any(_is_pid(p) for p in models):
+                # The instrument ID of the PID is not known here
+                models = []
         all_possible = client.product(prod).source_instrument_ids
         if all_possible and (match := [m for m in models if m in all_possible]):
             source_instruments[prod] = match
-- 
2.43.0


From 46025cb4d6ec353ebc0c19469f823876ff558140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 82/91] fix: replace only in the file name when naming products
 and plots

---
 cloudnetpy/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index b1da46e..e3efa99 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -683,7 +683,7 @@ def _plot(
         res.raise_for_status()
         variables = next(var["variables"] for var in res.json() if var["id"] == product)
         variables = [var["id"].split("-")[-1] for var in variables]
-    image_name = str(filepath).replace(".nc", ".png") if args.plot else None
+    image_name = str(Path(filepath).with_suffix(".png")) if args.plot else None
     options = PlotParameters()
     if args.max_y is not None:
         options.max_y = args.max_y
@@ -729,7 +729,8 @@ def _plot_l3(
 
 
 def _process_cat_product(product: str, categorize_file: str) -> str:
-    output_file = categorize_file.replace("categorize", product)
+    path = Path(categorize_file)
+    output_file = str(path.with_name(path.name.replace("categorize", product)))
     module = importlib.import_module("cloudnetpy.products")
     getattr(module, f"generate_{product}")(categorize_file, output_file)
     logging.info("Processed %s: %s", product, output_file)
-- 
2.43.0


From 35b961cec0278558b0b71f38247503bf9f949267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 83/91] fix: evaluate the files of the same run in l3 products

---
 cloudnetpy/cli.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index e3efa99..62ed996 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -98,6 +98,7 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
         _plot(cat_filepath, "categorize", args)
     else:
         cat_filepath = None
+    l2_files = {"categorize": cat_filepath}
     cat_products = [p for p in prod_sources if "categorize" in prod_sources[p]]
     for product in cat_products:
         if cat_filepath is None:
@@ -106,6 +107,7 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             logging.info("No categorize data available for {}")
             break
         l2_filename = _process_cat_product(product, cat_filepath)
+        l2_files[product] = l2_filename
         _plot(l2_filename, product, args)
 
     # Radar + model based products (e.g. epsilon-radar)
@@ -121,7 +123,9 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             model = args.model or DEFAULT_L3_MODEL
             if args.model is None:
                 logging.info("No model specified, using default '%s'", model)
-            l3_filepath = _process_l3_product(base_product, args, client, model)
+            l3_filepath = _process_l3_product(
+                base_product, l2_files, args, client, model
+            )
             _plot_l3(l3_filepath, base_product, args)
 
 
@@ -147,11 +151,17 @@ def _process_epsilon_radar(
 
 
 def _process_l3_product(
-    product: str, args: argparse.Namespace, client: APIClient, model: str
+    product: str,
+    l2_files: dict,
+    args: argparse.Namespace,
+    client: APIClient,
+    model: str,
 ) -> str | None:
     obs = product.removeprefix("l3-")
     source_product = L3_SOURCE_PRODUCTS[product]
-    product_file = _fetch_product(args, source_product, client)
+    product_file = l2_files.get(source_product) or _fetch_product(
+        args, source_product, client
+    )
     if product_file is None:
         logging.info("No %s data available for %s", source_product, product)
         return None
-- 
2.43.0


From 50d1f4b0293345e3035250b3b2f31f546b2a0896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 84/91] fix: write mwr and mwr-l1c of the same instrument to
 different files

---
 cloudnetpy/cli.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 62ed996..12c3ced 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -296,7 +296,7 @@ def _process_instrument_product(
     args: argparse.Namespace,
     client: APIClient,
 ) -> str | None:
-    output_filepath = _create_instrument_filepath(instrument, args)
+    output_filepath = _create_instrument_filepath(instrument, product, args)
     site_obj = meta[0].site
     site_meta: dict = {
         "name": site_obj.human_readable_name,
@@ -418,13 +418,15 @@ def _get_calibration(
 
 
 def _create_instrument_filepath(
-    instrument: Instrument, args: argparse.Namespace
+    instrument: Instrument, product: str, args: argparse.Namespace
 ) -> str:
     folder = _create_output_folder("instrument", args)
     pid = _shorten_pid(instrument.pid)
-    filename = (
-        f"{args.date.replace('-', '')}_{args.site}_{instrument.instrument_id}_{pid}.nc"
-    )
+    name = instrument.instrument_id
+    if product == "mwr-l1c":
+        # The same instrument is also used for the mwr product
+        name = f"{name}-l1c"
+    filename = f"{args.date.replace('-', '')}_{args.site}_{name}_{pid}.nc"
     return str(folder / filename)
 
 
-- 
2.43.0


From a6c116d002655029981291d2a37a48b1294fa38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 85/91] fix: make MWR products from level 1c files without
 instrument pid

---
 cloudnetpy/products/mwr_tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cloudnetpy/products/mwr_tools.py b/cloudnetpy/products/mwr_tools.py
index a772160..f2b8647 100644
--- a/cloudnetpy/products/mwr_tools.py
+++ b/cloudnetpy/products/mwr_tools.py
@@ -139,7 +139,7 @@ class Mwr:
             delattr(self.nc_l2, attr)
 
     def _copy_global_attributes(self) -> None:
-        keys = ("year", "month", "day", "location", "source")
+        keys = ("year", "month", "day", "location", "source", "instrument_pid")
         output.copy_global(self.nc_l1c, self.nc_l2, keys)
 
     def _fix_variable_attributes(self) -> None:
@@ -171,7 +171,6 @@ class Mwr:
         )
         self.nc_l2.source_file_uuids = self.nc_l1c.file_uuid
         self.nc_l2.mwrpy_version = mwrpy_version
-        self.nc_l2.instrument_pid = self.nc_l1c.instrument_pid
 
 
 def _read_mwrpy_coeffs(mwr_l1c_file: str | PathLike, folder: str) -> list[str]:
-- 
2.43.0


From e80b2a57e55c25f6223a6c16243420b27cb6e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 86/91] fix: do not take an error page for MWR coefficients

---
 cloudnetpy/products/mwr_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/products/mwr_tools.py b/cloudnetpy/products/mwr_tools.py
index f2b8647..5873286 100644
--- a/cloudnetpy/products/mwr_tools.py
+++ b/cloudnetpy/products/mwr_tools.py
@@ -179,7 +179,9 @@ def _read_mwrpy_coeffs(mwr_l1c_file: str | PathLike, folder: str) -> list[str]:
     coeffs = []
     for link in links:
         full_path = os.path.join(folder, link.split("/")[-1])
+        response = requests.get(link, timeout=10)
+        response.raise_for_status()
         with open(full_path, "wb") as f:
-            f.write(requests.get(link, timeout=10).content)
+            f.write(response.content)
         coeffs.append(full_path)
     return coeffs
-- 
2.43.0


From 5efed3429f3c5360e727708f14546fb30f70c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 87/91] fix: make MWR products with mwrpy versions that do not
 take the site

---
 cloudnetpy/products/mwr_tools.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/products/mwr_tools.py b/cloudnetpy/products/mwr_tools.py
index 5873286..48b9846 100644
--- a/cloudnetpy/products/mwr_tools.py
+++ b/cloudnetpy/products/mwr_tools.py
@@ -1,5 +1,7 @@
+import inspect
 import os
 import tempfile
+from collections.abc import Callable
 from os import PathLike
 from typing import Literal
 from uuid import UUID
@@ -97,11 +99,11 @@ def _generate_product(
         coeffs = _read_mwrpy_coeffs(mwr_l1c_file, temp_dir)
         try:
             if product == "multi":
-                gen_multi(None, mwr_l1c_file, output_file, coeffs)
+                _generate(gen_multi, mwr_l1c_file, output_file, coeffs)
             elif product == "single":
-                gen_single(None, mwr_l1c_file, output_file, lwp_offset, coeffs)
+                _generate(gen_single, mwr_l1c_file, output_file, lwp_offset, coeffs)
             else:
-                gen_lhumpro(None, mwr_l1c_file, output_file, lwp_offset, coeffs)
+                _generate(gen_lhumpro, mwr_l1c_file, output_file, lwp_offset, coeffs)
                 product = "single"
         except MissingInputData as err:
             raise ValidTimeStampError from err
@@ -119,6 +121,13 @@ def _generate_product(
         return mwr.harmonize(product)
 
 
+def _generate(generator: Callable, *args: object) -> None:
+    # Only older versions of mwrpy take the site as the first argument.
+    if "site" in inspect.signature(generator).parameters:
+        args = (None, *args)
+    generator(*args)
+
+
 class Mwr:
     def __init__(
         self, nc_l1c: netCDF4.Dataset, nc_l2: netCDF4.Dataset, uuid: UUID
-- 
2.43.0


From 82e63613fe4ff17c15afdf010046836927e0cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 88/91] fix: read kinetic energy of Parsivel netCDF files as
 such

---
 cloudnetpy/disdronator/parsivel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index 3d6b2d2..a80a71f 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -121,7 +121,7 @@ PARSIVEL2NC_KEYS = {
     "n_particles": 11,
     "rainfall_rate": 1,
     "radar_reflectivity": 7,
-    "E_kin": 24,
+    "E_kin": 34,
     "visibility": 8,
     "synop_WaWa": 3,
     "synop_WW": 4,
@@ -203,7 +203,7 @@ LEIPZIG_KEYS = {
     "Sig_Laser": 10,
     "N_Particles": 11,
     "State_Sensor": 18,
-    "E_kin": 24,
+    "E_kin": 34,
     "V_Sensor": 17,
     "I_Heating": 16,
     "Error_Code": 25,
-- 
2.43.0


From adc1c8ab99d0f2472efe5725c859dd095562888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 89/91] fix: keep missing values of Parsivel netCDF files
 missing

---
 cloudnetpy/disdronator/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/disdronator/utils.py b/cloudnetpy/disdronator/utils.py
index 307dc50..97dad14 100644
--- a/cloudnetpy/disdronator/utils.py
+++ b/cloudnetpy/disdronator/utils.py
@@ -12,12 +12,12 @@ def convert_to_numpy(
 ) -> dict:
     output = {}
     for key, value in data.items():
-        arr = np.array(value)
+        arr = value if ma.is_masked(value) else np.array(value)
         if fill_values is not None and key in fill_values:
             arr = ma.masked_where(arr == fill_values[key], arr)
         if int_keys is not None and key in int_keys:
             new_arr = arr.astype(np.int32)
-            if not np.all(arr == new_arr):
+            if np.any(arr != new_arr):
                 msg = "Cannot convert non-integer float to integer"
                 raise ValueError(msg)
             arr = new_arr
-- 
2.43.0


From f8a8f9d6b701f8a42ecd53794f038a2cc18f106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 90/91] fix: skip broken LPM telegrams completely

---
 cloudnetpy/disdronator/lpm.py      | 37 +++++++++++++++++-------------
 cloudnetpy/disdronator/parsivel.py |  8 ++-----
 cloudnetpy/disdronator/utils.py    | 20 +++++++++++++++-
 3 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/cloudnetpy/disdronator/lpm.py b/cloudnetpy/disdronator/lpm.py
index e797900..141f9ea 100644
--- a/cloudnetpy/disdronator/lpm.py
+++ b/cloudnetpy/disdronator/lpm.py
@@ -5,7 +5,7 @@ from typing import TypeAlias
 import numpy as np
 import numpy.typing as npt
 
-from cloudnetpy.disdronator.utils import convert_to_numpy
+from cloudnetpy.disdronator.utils import append_record, convert_to_numpy
 
 LpmOutput: TypeAlias = tuple[list, dict[int, list]]
 
@@ -53,12 +53,13 @@ Vmid = Vlow + Vspr / 2
 A = (20 / 1000) * (228 / 1000)  # TODO: AU
 
 
-def _read_telegram(telegram: str, data: dict[int, list]) -> None:
+def _read_telegram(telegram: str) -> dict:
     telegram = telegram.strip().rstrip(";")
     values = telegram.split(";")
     if len(values) not in (520, 524):
         msg = "Invalid telegram length"
         raise ValueError(msg)
+    record: dict = {}
     for i, value in enumerate(values[:-1]):
         no = i + 2
         parsed: datetime.date | datetime.time | int | float | str
@@ -72,9 +73,8 @@ def _read_telegram(telegram: str, data: dict[int, list]) -> None:
             parsed = float(value)
         else:
             parsed = value
-        if no not in data:
-            data[no] = []
-        data[no].append(parsed)
+        record[no] = parsed
+    return record
 
 
 def _read_pyatmoslogger(filename: str | PathLike) -> LpmOutput:
@@ -83,12 +83,14 @@ def _read_pyatmoslogger(filename: str | PathLike) -> LpmOutput:
     with open(filename, errors="ignore") as f:
         f.readline()
         for line in f:
-            timestamp, telegram = line.split(";", maxsplit=1)
             try:
-                _read_telegram(telegram, data)
-                time.append(datetime.datetime.strptime(timestamp, "%Y-%m-%d %H:%M:%S"))
+                timestamp, telegram = line.split(";", maxsplit=1)
+                dt = datetime.datetime.strptime(timestamp, "%Y-%m-%d %H:%M:%S")
+                record = _read_telegram(telegram)
             except ValueError:
-                pass
+                continue
+            append_record(data, record, len(time))
+            time.append(dt)
     return time, data
 
 
@@ -100,10 +102,12 @@ def _read_lampedusa(filename: str | PathLike) -> LpmOutput:
         for line in f:
             cols = [col.strip('"') for col in line.strip().split(",")]
             try:
-                _read_telegram(cols[2], data)
-                time.append(datetime.datetime.strptime(cols[0], "%Y-%m-%d %H:%M:%S"))
-            except ValueError:
-                pass
+                dt = datetime.datetime.strptime(cols[0], "%Y-%m-%d %H:%M:%S")
+                record = _read_telegram(cols[2])
+            except (ValueError, IndexError):
+                continue
+            append_record(data, record, len(time))
+            time.append(dt)
     return time, data
 
 
@@ -113,10 +117,11 @@ def _read_raw(filename: str | PathLike) -> LpmOutput:
     with open(filename) as f:
         for line in f:
             try:
-                _read_telegram(line, data)
-                time.append(datetime.datetime.combine(data[5][-1], data[6][-1]))
+                record = _read_telegram(line)
             except ValueError:
-                pass
+                continue
+            append_record(data, record, len(time))
+            time.append(datetime.datetime.combine(record[5], record[6]))
     return time, data
 
 
diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index a80a71f..a8b3312 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -8,7 +8,7 @@ import netCDF4
 import numpy as np
 import numpy.typing as npt
 
-from cloudnetpy.disdronator.utils import convert_to_numpy
+from cloudnetpy.disdronator.utils import append_record, convert_to_numpy
 
 ParsivelOutput: TypeAlias = tuple[list, dict[int, list]]
 
@@ -397,11 +397,7 @@ def _read_hyytiala(filename: str | PathLike) -> ParsivelOutput:
             )
         except ValueError:
             continue
-        for key in record:
-            if key not in data:
-                data[key] = [None] * len(time)
-        for key in data:
-            data[key].append(record.get(key))
+        append_record(data, record, len(time))
         time.append(timestamp)
     return time, data
 
diff --git a/cloudnetpy/disdronator/utils.py b/cloudnetpy/disdronator/utils.py
index 97dad14..cb24aff 100644
--- a/cloudnetpy/disdronator/utils.py
+++ b/cloudnetpy/disdronator/utils.py
@@ -1,9 +1,18 @@
 from collections.abc import Container
 
 import numpy as np
+import numpy.typing as npt
 from numpy import ma
 
 
+def append_record(data: dict[int, list], record: dict, n_previous: int) -> None:
+    for key in record:
+        if key not in data:
+            data[key] = [None] * n_previous
+    for key in data:
+        data[key].append(record.get(key))
+
+
 def convert_to_numpy(
     data: dict,
     fill_values: dict | None = None,
@@ -12,7 +21,7 @@ def convert_to_numpy(
 ) -> dict:
     output = {}
     for key, value in data.items():
-        arr = value if ma.is_masked(value) else np.array(value)
+        arr = value if ma.is_masked(value) else _to_array(value)
         if fill_values is not None and key in fill_values:
             arr = ma.masked_where(arr == fill_values[key], arr)
         if int_keys is not None and key in int_keys:
@@ -25,3 +34,12 @@ def convert_to_numpy(
             arr = arr.astype(np.float32)
         output[key] = arr
     return output
+
+
+def _to_array(value: npt.ArrayLike) -> npt.NDArray:
+    if not isinstance(value, list) or all(v is not None for v in value):
+        return np.array(value)
+    valid = next(v for v in value if v is not None)
+    arr = ma.array([valid if v is None else v for v in value])
+    arr[[v is None for v in value]] = ma.masked
+    return arr
-- 
2.43.0


From 0e1c76bc754556910c5acb224bdca156f185339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 91/91] fix: skip Parsivel telegrams with incomplete
 distributions

---
 cloudnetpy/disdronator/parsivel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index a8b3312..1a9d9f9 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -312,6 +312,9 @@ def _read_typ_op4a(content: bytes) -> dict:
             data[num] = float(value)
         elif num in (90, 91):
             data[num] = [float(x) for x in value.rstrip(b";").split(b";")]
+            if len(data[num]) != 32:
+                msg = "Invalid number of classes"
+                raise ValueError(msg)
         elif num == 93:
             spectrum = [int(x) for x in value.rstrip(b";").split(b";")]
             data[num] = np.reshape(spectrum, (32, 32))
-- 
2.43.0

