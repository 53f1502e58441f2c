From bda8e73d2897e2c4a545096f5e95e2db3589c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 01/26] fix: use the cumulative day of year for the end of
 February in the PCI

The month boundaries of pci() listed February's length (28/29) where the
cumulative day number (59/60) is needed, so February was empty and
March absorbed February plus the last days of January.
---
 src/climate_indices/indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index fc7118a..1a9afd0 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -535,7 +535,7 @@ def pci(
 
     # make sure we're not dealing with a NaN or out-of-range or less than the expected rainfall value
     if len(rainfall_mm) == 366 and not sum(np.isnan(rainfall_mm)):
-        m = [31, 29, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
+        m = [31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
         start = 0
         numerator = 0
         denominator = 0
@@ -549,7 +549,7 @@ def pci(
         return np.array([(numerator / (denominator**2)) * 100])
 
     if len(rainfall_mm) == 365 and not sum(np.isnan(rainfall_mm)):
-        m = [31, 28, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
+        m = [31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
         start = 0
         numerator = 0
         denominator = 0
-- 
2.43.0


From 32031b916a3d7ba563c235604e2239dd26b270c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 02/26] fix: leave the caller's values alone when fitting to
 the gamma distribution

gamma_parameters() and transform_fitted_gamma() replaced zeros with NaN in
the array they were given. For a time scale of 1 that is the caller's own
precipitation array, which within the spi command is the shared memory
holding the input of every later computation.
---
 src/climate_indices/compute.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index df766f9..e7345d9 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -681,7 +681,8 @@ def gamma_parameters(
     # validate (and possibly reshape) the input array
     values = _validate_array(values, periodicity)
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs (in a copy, leaving the caller's values as they are)
+    values = np.array(values, dtype=float, subok=True)
     values[values == 0] = np.nan
 
     # determine the end year of the values array
@@ -804,7 +805,8 @@ def transform_fitted_gamma(
     zeros = (values == 0).sum(axis=0)
     probabilities_of_zero = zeros / values.shape[0]
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs (in a copy, leaving the caller's values as they are)
+    values = np.array(values, dtype=float, subok=True)
     values[values == 0] = np.nan
 
     # compute fitting parameters if none were provided
-- 
2.43.0


From 2eb2cbf4c2a117628b426cb1726dcfe31dfb2072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 03/26] fix: do not overwrite the caller's negative
 temperatures in eto_thornthwaite

---
 src/climate_indices/eto.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index d723780..7a592d2 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -249,6 +249,8 @@ def eto_thornthwaite(
     # TODO this sometimes throws a RuntimeWarning for invalid value,
     #  perhaps as a result of a NaN, somehow use masking and/or NaN
     #  pre-check to eliminate the cause of this warning
+    # (in a copy, leaving the caller's values as they are)
+    monthly_temps_celsius = np.array(monthly_temps_celsius, dtype=float, subok=True)
     monthly_temps_celsius[monthly_temps_celsius < 0] = 0.0
 
     # mean the monthly temperature values over the month axis,
-- 
2.43.0


From 330814fb97e47532aeef2cfc34bf9aa7945051fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 04/26] fix: clip negative precipitation also when some values
 are missing

np.amin() of an array containing a NaN is NaN, so a single missing value
disabled the clipping of negatives to zero.
---
 src/climate_indices/compute.py | 2 +-
 src/climate_indices/indices.py | 4 ++--
 src/climate_indices/palmer.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index e7345d9..20902d8 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -736,7 +736,7 @@ def scale_values(
         return values
 
     # clip any negative values to zero
-    if np.amin(values) < 0.0:
+    if np.nanmin(values) < 0.0:
         _logger.warn("Input contains negative values -- all negatives clipped to zero")
         values = np.clip(values, a_min=0.0, a_max=None)
 
diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index 1a9afd0..f652a3e 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -125,7 +125,7 @@ def spi(
         return values
 
     # clip any negative values to zero
-    if np.amin(values) < 0.0:
+    if np.nanmin(values) < 0.0:
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
         values = np.clip(values, a_min=0.0, a_max=None)
 
@@ -270,7 +270,7 @@ def spei(
         raise ValueError(message)
 
     # clip any negative values to zero
-    if np.amin(precips_mm) < 0.0:
+    if np.nanmin(precips_mm) < 0.0:
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
         precips_mm = np.clip(precips_mm, a_min=0.0, a_max=None)
 
diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 39d8a26..7081112 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -867,7 +867,7 @@ def pdsi(
         raise ValueError(message)
 
     # clip any negative values to zero
-    if np.amin(precips) < 0.0:
+    if np.nanmin(precips) < 0.0:
         _logger.warning(
             "Input contains negative values -- all negatives clipped to zero"
         )
-- 
2.43.0


From 60f9dfa70321569e7941296aa30533363b5a3374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 05/26] fix: Thornthwaite PET of a location that is never above
 freezing is zero

Such a location has a heat index of zero, and the PET came out as NaN
(zero divided by zero) for months with valid temperatures.
---
 src/climate_indices/eto.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index 7a592d2..bf6fae2 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -260,6 +260,11 @@ def eto_thornthwaite(
     # calculate the heat index (I)
     heat_index = np.sum(np.power(mean_monthly_temps / 5.0, 1.514))
 
+    # a location that's never above freezing has a heat index of zero, avoid dividing by it below
+    # (all temperatures are zero at this point, so there's no evapotranspiration whatever the divisor)
+    if heat_index == 0.0:
+        heat_index = 1.0
+
     # calculate the coefficient
     a = (6.75e-07 * heat_index**3) - (7.71e-05 * heat_index**2) + (1.792e-02 * heat_index) + 0.49239
 
-- 
2.43.0


From ba102993ffdd82ee803844a98f954156c42e9e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 06/26] fix: accept the poles as PET latitudes, the documented
 range is inclusive

---
 src/climate_indices/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index f652a3e..ba51585 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -494,7 +494,7 @@ def pet(
         latitude_degrees = latitude_degrees.flat[0]
 
     # make sure we're not dealing with a NaN or out-of-range latitude value
-    if (latitude_degrees is not None) and not np.isnan(latitude_degrees) and (-90.0 < latitude_degrees < 90.0):
+    if (latitude_degrees is not None) and not np.isnan(latitude_degrees) and (-90.0 <= latitude_degrees <= 90.0):
         # compute and return the PET values using Thornthwaite's equation
         return eto.eto_thornthwaite(
             temperature_celsius,
-- 
2.43.0


From dbf3b63b373ddac1ebcbea2f2b1cd2078978c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 07/26] fix: make eto_hargreaves usable with the documented
 inputs

The size check compared a size with whole arrays, which raised for any
array of more than one element, and 1-D minimum and maximum temperatures
were indexed as (year, day) without having been reshaped.
---
 src/climate_indices/eto.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index bf6fae2..8006711 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -320,7 +320,7 @@ def eto_hargreaves(
     """
 
     # validate the input data arrays
-    if daily_tmin_celsius.size != daily_tmax_celsius != daily_tmean_celsius:
+    if not daily_tmin_celsius.size == daily_tmax_celsius.size == daily_tmean_celsius.size:
         message = "Incompatible array sizes"
         _logger.error(message)
         raise ValueError(message)
@@ -329,6 +329,8 @@ def eto_hargreaves(
     original_length = daily_tmean_celsius.size
 
     # reshape to 2-D with 366 days per year, if not already in this shape
+    daily_tmin_celsius = utils.reshape_to_2d(daily_tmin_celsius, 366)
+    daily_tmax_celsius = utils.reshape_to_2d(daily_tmax_celsius, 366)
     daily_tmean_celsius = utils.reshape_to_2d(daily_tmean_celsius, 366)
 
     # at this point we assume that our dataset array has shape (years, 366)
-- 
2.43.0


From 13006376e06dda7c62ab3db438e987194940ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 08/26] fix: sum_to_scale of fewer values than the scale is all
 missing

np.convolve() swaps its arguments when the kernel is the longer one, so
the result had the wrong length and contained sums that don't exist.
---
 src/climate_indices/compute.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index 20902d8..01980e7 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -150,6 +150,10 @@ def sum_to_scale(
     if scale == 1:
         return values
 
+    # there are no complete sums if there are fewer values than the number to be summed
+    if scale > values.size:
+        return np.full(values.shape, np.nan)
+
     # get the valid sliding summations with 1D convolution
     sliding_sums = np.convolve(values, np.ones(scale), mode="valid")
 
-- 
2.43.0


From 76296597bd799413fa15609df8c0beaaa11b53b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 09/26] fix: the final data year is the last year of the
 record, not the one after it

A calibration period ending one year past the record was taken as being
within it, and was silently cut short instead of being replaced by the
full period of record as every other out-of-range period is.
---
 src/climate_indices/compute.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index 01980e7..8ddcf66 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -294,7 +294,7 @@ def pearson_parameters(
     """
     values = reshape_values(values, periodicity)
     time_steps_per_year = validate_values_shape(values)
-    data_end_year = data_start_year + values.shape[0]
+    data_end_year = data_start_year + values.shape[0] - 1
     calibration_start_year, calibration_end_year = adjust_calibration_years(
         data_start_year, data_end_year, calibration_start_year, calibration_end_year
     )
@@ -616,7 +616,7 @@ def transform_fitted_pearson(
     # compute the Pearson Type III fitting values if none were provided
     if any(param_arg is None for param_arg in pearson_param_args):
         # determine the end year of the values array
-        data_end_year = data_start_year + values.shape[0]
+        data_end_year = data_start_year + values.shape[0] - 1
 
         # make sure that we have data within the full calibration period,
         # otherwise use the full period of record
@@ -690,7 +690,7 @@ def gamma_parameters(
     values[values == 0] = np.nan
 
     # determine the end year of the values array
-    data_end_year = data_start_year + values.shape[0]
+    data_end_year = data_start_year + values.shape[0] - 1
 
     # make sure that we have data within the full calibration period,
     # otherwise use the full period of record
-- 
2.43.0


From fd6b8c91c9368f5d2fb2e3aadb830ddaaa2e6ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 10/26] fix: compare the calibration period with the number of
 years of daily data

percentage_of_normal() counted 12 time steps per calibration year for daily
data too, so a calibration period longer than the record was accepted.
---
 src/climate_indices/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index ba51585..f24d406 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -416,7 +416,7 @@ def percentage_of_normal(
             "Invalid start year arguments (data and/or calibration): "
             "calibration start year is before the data start year",
         )
-    if ((calibration_end_year - calibration_start_year + 1) * 12) > values.size:
+    if ((calibration_end_year - calibration_start_year + 1) * periodicity) > values.size:
         raise ValueError(
             "Invalid calibration period specified: total calibration years "
             "exceeds the actual number of years of data",
-- 
2.43.0


From 7dbbe118b98718046da83b893194e4423a1eb32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 11/26] fix: grow the Palmer backtracking arrays before they
 overflow

The arrays were only enlarged once the index was past their end, so an
undecided spell of 40 months raised an IndexError.
---
 src/climate_indices/palmer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 7081112..b29f273 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -535,7 +535,7 @@ def _statement_200(data: dict) -> None:
     # At that time, the assign method backtracs through choosing
     # the appropriate x1 or x2 to be that month's x.
     #_logger.debug(f"no value assigned; will backtrack later k8:{data['k8']},y:{year},m:{month}")
-    if data["k8"] >= data["sx"].shape[0]+1:
+    if data["k8"] >= data["sx"].shape[0] - 1:
         vals = [0] * (data["k8"] - data["sx"].shape[0] + 2)
         data["sx"] = np.append(data["sx"], vals)
         data["sx1"] = np.append(data["sx1"], vals)
-- 
2.43.0


From cf190bf20280d54af037d1a345fb850608bcddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 12/26] fix: use at least one worker process on a single-core
 machine

The default of all cores but one left no worker process at all.
---
 src/climate_indices/__main__.py | 4 ++--
 src/climate_indices/__spi__.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 4e0eceb..220ef3a 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -16,7 +16,7 @@ import xarray as xr
 from climate_indices import compute, indices, utils
 
 # the number of worker processes we'll use for process pools
-_NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+_NUMBER_OF_WORKER_PROCESSES = max(1, multiprocessing.cpu_count() - 1)
 # shared memory array dictionary keys
 _KEY_ARRAY = "array"
 _KEY_SHAPE = "shape"
@@ -1631,7 +1631,7 @@ def process_climate_indices(
         elif arguments.multiprocessing == "all":
             _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+            _NUMBER_OF_WORKER_PROCESSES = max(1, multiprocessing.cpu_count() - 1)
 
         # compute SPI if specified
         if arguments.index in ["spi", "scaled", "all"]:
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 0f4bfc9..f90b98e 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -1408,7 +1408,7 @@ def main():  # type: () -> None
         elif arguments.multiprocessing == "all":
             number_of_workers = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            number_of_workers = multiprocessing.cpu_count() - 1
+            number_of_workers = max(1, multiprocessing.cpu_count() - 1)
 
         # prepare precipitation NetCDF in case dimensions not (lat, lon, time) or if any coordinates are descending
         netcdf_precip = _prepare_file(arguments.netcdf_precip, arguments.var_name_precip)
-- 
2.43.0


From b9388b1fe397ed0e603733f7584d470258f4e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 13/26] fix: do not split a single time series between worker
 processes

The first axis was split whatever it was. For a time series that's the
time axis, so that each worker took its piece for a record of its own
starting in January of the first year.
---
 src/climate_indices/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 220ef3a..8beb8ac 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1172,6 +1172,9 @@ def _parallel_process(
     # if there are fewer chunks than the available number of processes
     # then only create the necessary number of tasks
     required_processes = min(shape[0], _NUMBER_OF_WORKER_PROCESSES)
+    # the first axis of a time series is the time axis, which can't be split
+    if input_type == InputType.timeseries:
+        required_processes = 1
     d, m = divmod(shape[0], required_processes)
     split_indices = list(range(0, ((d + 1) * (m + 1)), (d + 1)))
     if d != 0:
-- 
2.43.0


From 8b8087632fd33d4681f2ab0f56f81f9323158fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 14/26] fix: compute each index into a results array of its own
 shape

The shared results array was created once per process, so processing
another dataset of a different shape failed or reshaped its results.
---
 src/climate_indices/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 8beb8ac..8835b73 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -993,7 +993,8 @@ def _compute_write_index(keyword_arguments):
 
     else:
         # add an array to hold results to the dictionary of arrays
-        if _KEY_RESULT not in _global_shared_arrays:
+        # (unless there's one for results of the same shape)
+        if _global_shared_arrays.get(_KEY_RESULT, {}).get(_KEY_SHAPE) != output_shape:
             _global_shared_arrays[_KEY_RESULT] = {
                 _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
                 _KEY_SHAPE: output_shape,
-- 
2.43.0


From 995d695555751d1da9f95ff894084e403a5912c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 15/26] fix: reorder the dimensions of the input files as
 documented

_prepare_file() promised a temporary file with the dimensions in the order
the computations need, but returned every input unchanged, so that
(time, lat, lon) inputs failed and the indices of (time, division) inputs
were computed along the division axis.
---
 src/climate_indices/__main__.py | 12 ++++++++++++
 src/climate_indices/__spi__.py  | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 8835b73..4f53cf0 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -7,6 +7,7 @@ from enum import Enum
 import logging
 import multiprocessing
 import os
+import tempfile
 from typing import Any, Dict, List, Tuple
 
 import numpy as np
@@ -1474,6 +1475,17 @@ def _prepare_file(
         _logger.error(message)
         raise ValueError(message)
 
+    # reorder the dimensions within a temporary NetCDF, if necessary
+    if dimensions != expected_dims:
+        ds = ds.transpose(*expected_dims, ..., missing_dims="ignore")
+        for variable in ds.variables.values():
+            # sizes within the encoding are in the original dimension order
+            variable.encoding.pop("chunksizes", None)
+            variable.encoding.pop("original_shape", None)
+        file_descriptor, netcdf_file = tempfile.mkstemp(suffix=".nc")
+        os.close(file_descriptor)
+        ds.to_netcdf(netcdf_file)
+
     return netcdf_file
 
 
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index f90b98e..6b74dcf 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -8,6 +8,7 @@ from enum import Enum
 import logging
 import multiprocessing
 import os
+import tempfile
 from typing import Dict, List
 
 import numpy as np
@@ -1296,6 +1297,17 @@ def _prepare_file(netcdf_file, var_name):
         _logger.error(message)
         raise ValueError(message)
 
+    # reorder the dimensions within a temporary NetCDF, if necessary
+    if dimensions != expected_dims:
+        ds = ds.transpose(*expected_dims, ..., missing_dims="ignore")
+        for variable in ds.variables.values():
+            # sizes within the encoding are in the original dimension order
+            variable.encoding.pop("chunksizes", None)
+            variable.encoding.pop("original_shape", None)
+        file_descriptor, netcdf_file = tempfile.mkstemp(suffix=".nc")
+        os.close(file_descriptor)
+        ds.to_netcdf(netcdf_file)
+
     return netcdf_file
 
 
-- 
2.43.0


From 93f206574c8693bee36dc7330e075c538271e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 16/26] fix: match the grids of the input files by position
 once validated

Latitudes and longitudes may differ within a tolerance, but the files were
joined on the exact values, which turned slightly different grids into one
with twice the cells in which no cell had both variables.
---
 src/climate_indices/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 4f53cf0..f55cd39 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -711,7 +711,9 @@ def _compute_write_index(keyword_arguments):
         else:
             raise ValueError(f"Invalid 'input_type' keyword argument: {input_type}")
     # Since multiple variables can be in the same file, de-duplicate the filelist.
-    dataset = xr.open_mfdataset(list(set(files)), chunks=chunks)
+    # The coordinates of the files have been validated as matching within
+    # a tolerance, so the values are matched by their position.
+    dataset = xr.open_mfdataset(list(set(files)), chunks=chunks, join="override")
     output_chunksizes = {}
     if keyword_arguments["chunksizes"] == "input":
         # Find the first variable with chunksizes set and use that
-- 
2.43.0


From 30dd1b330f675a7932b4bcaeda78c1fd293ccaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 17/26] fix: reject daily temperatures for the computation of
 PET for SPEI too

The Thornthwaite computation is monthly only. --index pet rejects daily
input, but with --index spei or scaled days were taken for months.
---
 src/climate_indices/__main__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index f55cd39..3e8df87 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -280,6 +280,12 @@ def _validate_args(args):
             raise ValueError(msg)
 
         else:
+            # PET computed from temperature is only available for monthly data, as above
+            if args.periodicity is not compute.Periodicity.monthly:
+                msg = "Invalid periodicity argument for PET: " + f"'{args.periodicity}' -- only 'monthly'' is supported"
+                _logger.error(msg)
+                raise ValueError(msg)
+
             # validate the temperature file
             with xr.open_dataset(args.netcdf_temp) as dataset_temp:
                 # make sure we have a valid temperature variable name
-- 
2.43.0


From 49bc624ce0d2f0999b955717af354b25336696dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 18/26] fix: compare the coordinates of a grid with a single
 row or column

get_tolerance() raised for a dimension of size one, as it has no grid size.
---
 src/climate_indices/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 74dac1a..e1dea0c 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -115,6 +115,9 @@ def get_tolerance(dim: np.ndarray) -> float:
     derived from (smallest) absolute grid size along dimension dim.
     Always greater than zero.
     """
+    # there's no grid size along a dimension of a single value
+    if np.size(dim) < 2:
+        return np.finfo(float).resolution
     tol = np.abs(np.diff(dim)).min() / 10
     return max(tol, np.finfo(tol.dtype).resolution)
 
-- 
2.43.0


From 40ed39836c6f7f11ee7f949a81d3f7f445519a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 19/26] fix: accept integer values with an incomplete final
 year

---
 src/climate_indices/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index e1dea0c..2ab309b 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -229,6 +229,9 @@ def reshape_to_2d(
     final_year_values = shape[0] % second_axis_length
     if final_year_values > 0:
         pads = second_axis_length - final_year_values
+        if np.issubdtype(values.dtype, np.integer):
+            # integers have no missing value
+            values = values.astype(float)
         values = np.pad(values, pad_width=(0, pads), mode="constant", constant_values=np.nan)
 
     # we should have an ordinal number of years now
-- 
2.43.0


From 9972a210973dd188841853f37bc93aa780d3a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:57 +0000
Subject: [PATCH 20/26] fix: spi: compute each dataset into a results array of
 its own shape

The shared results array was created once per process, so processing
another dataset of a different shape failed or reshaped its results.
---
 src/climate_indices/__spi__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 6b74dcf..2979b0b 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -634,7 +634,8 @@ def _compute_write_index(keyword_arguments):
 
     # add an array to hold index computation results
     # to our dictionary of shared memory arrays
-    if _KEY_RESULT not in _global_shared_arrays:
+    # (unless there's one for results of the same shape)
+    if _global_shared_arrays.get(_KEY_RESULT, {}).get(_KEY_SHAPE) != output_shape:
         _global_shared_arrays[_KEY_RESULT] = {
             _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
             _KEY_SHAPE: output_shape,
-- 
2.43.0


From d841f78c3fa5dc93a23a5b87d96eb8e4bab1ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:22 +0000
Subject: [PATCH 21/26] fix: take only the relevant variable from each of the
 input files

Combining the files failed when one file in another dimension order holds
both variables (its two reordered copies hold the same variables).
---
 src/climate_indices/__main__.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 3e8df87..18b3252 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -694,14 +694,11 @@ def _compute_write_index(keyword_arguments):
 
     _log_status(keyword_arguments)
 
-    # open the NetCDF files as an xarray DataSet object
+    # the NetCDF files, and the variable to be read from each
     files = []
-    if "netcdf_precip" in keyword_arguments:
-        files.append(keyword_arguments["netcdf_precip"])
-    if "netcdf_temp" in keyword_arguments:
-        files.append(keyword_arguments["netcdf_temp"])
-    if "netcdf_pet" in keyword_arguments:
-        files.append(keyword_arguments["netcdf_pet"])
+    for key in ("precip", "temp", "pet"):
+        if f"netcdf_{key}" in keyword_arguments:
+            files.append((keyword_arguments[f"netcdf_{key}"], keyword_arguments[f"var_name_{key}"]))
     if "input_type" not in keyword_arguments:
         raise ValueError("Missing the 'input_type' keyword argument")
     if "chunksizes" not in keyword_arguments:
@@ -716,10 +713,17 @@ def _compute_write_index(keyword_arguments):
             chunks = {"time": -1}
         else:
             raise ValueError(f"Invalid 'input_type' keyword argument: {input_type}")
-    # Since multiple variables can be in the same file, de-duplicate the filelist.
+    # Since multiple variables can be in the same file (or in reordered copies of
+    # the same file) only the relevant variable is taken from each of the files.
     # The coordinates of the files have been validated as matching within
     # a tolerance, so the values are matched by their position.
-    dataset = xr.open_mfdataset(list(set(files)), chunks=chunks, join="override")
+    datasets = []
+    for file, var_name in files:
+        dataset = xr.open_dataset(file, chunks=chunks)
+        # keep the latitude variable if we're dealing with divisions
+        keep = [var_name, "lat"] if input_type == InputType.divisions else [var_name]
+        datasets.append(dataset.drop_vars([var for var in dataset.data_vars if var not in keep]))
+    dataset = xr.merge(datasets, compat="override", join="override", combine_attrs="override")
     output_chunksizes = {}
     if keyword_arguments["chunksizes"] == "input":
         # Find the first variable with chunksizes set and use that
-- 
2.43.0


From 844921753890dc8f9a61b3c521d2a5256bd979e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 22/26] fix: take over the input's chunk sizes whichever
 backend reads it

Only the netCDF4 backend tells whether a variable is contiguous, with the
others the chunk sizes of the input were always ignored.
---
 src/climate_indices/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 18b3252..2a8a2c3 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -730,7 +730,7 @@ def _compute_write_index(keyword_arguments):
         # Note that the netcdf spec doesn't require that all data variables
         # have the same chunk sizes.
         for da in dataset.data_vars.values():
-            if not da.encoding.get("contiguous", True):
+            if not da.encoding.get("contiguous", False):
                 # tuple of chunksizes, respectively by dimension
                 output_chunksizes = da.encoding.get("chunksizes", ())
             if output_chunksizes:
-- 
2.43.0


From 2b54af6058c38cc7cb19a683b3f68d3d9a02b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 23/26] fix: masked values are missing values

---
 src/climate_indices/compute.py  |  6 ++++++
 src/climate_indices/indices.py  |  3 +++
 src/climate_indices/lmoments.py |  3 +++
 src/climate_indices/utils.py    | 29 +++++++++++++++++++++++++++--
 4 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index 8ddcf66..b25e89b 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -79,6 +79,9 @@ def _validate_array(
         the correct shape for the specified periodicity
     """
 
+    # masked values are missing
+    values = utils.masked_to_missing(values)
+
     # validate (and possibly reshape) the input array
     if len(values.shape) == 1:
         if periodicity is None:
@@ -146,6 +149,9 @@ def sum_to_scale(
         array, left padded with NaN values
     """
 
+    # masked values are missing
+    values = utils.masked_to_missing(values)
+
     # don't bother if the number of values to sum is 1
     if scale == 1:
         return values
diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index f24d406..458b643 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -533,6 +533,9 @@ def pci(
         # we started with all NaNs for the rainfall, so just return the same
         return rainfall_mm
 
+    # masked values are missing
+    rainfall_mm = utils.masked_to_missing(rainfall_mm)
+
     # make sure we're not dealing with a NaN or out-of-range or less than the expected rainfall value
     if len(rainfall_mm) == 366 and not sum(np.isnan(rainfall_mm)):
         m = [31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
diff --git a/src/climate_indices/lmoments.py b/src/climate_indices/lmoments.py
index 39cb028..60631d9 100644
--- a/src/climate_indices/lmoments.py
+++ b/src/climate_indices/lmoments.py
@@ -126,6 +126,9 @@ def _estimate_lmoments(
         corresponding to the input values)
     """
 
+    # masked values are missing
+    values = utils.masked_to_missing(values)
+
     # we need to have at least four values in order
     # to make a sample L-moments estimation
     number_of_values = np.count_nonzero(~np.isnan(values))
diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 2ab309b..f927bfa 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -82,8 +82,8 @@ def count_zeros_and_non_missings(
         2) the count of non-missing values
     """
 
-    # make sure we have a numpy array
-    values = np.array(values)
+    # make sure we have a numpy array, where masked values are missing
+    values = np.array(masked_to_missing(values))
 
     # count the number of zeros and non-missing (non-NaN) values
     zeros = values.size - np.count_nonzero(values)
@@ -179,6 +179,22 @@ def is_data_valid(
     return valid_flag
 
 
+def masked_to_missing(
+    values: np.ndarray,
+) -> np.ndarray:
+    """
+    Masked elements are missing values.
+
+    :param values: numpy.ndarray or numpy.ma.MaskedArray
+    :return: an array with the masked elements replaced by NaN,
+        or the values as they are if they're not a masked array
+    """
+    if np.ma.isMaskedArray(values):
+        return values.astype(float).filled(np.nan)
+
+    return values
+
+
 def rmse(
     predictions: np.ndarray,
     targets: np.ndarray,
@@ -205,6 +221,9 @@ def reshape_to_2d(
     :rtype: 2-D numpy.ndarray of floats
     """
 
+    # masked values are missing
+    values = masked_to_missing(values)
+
     # if we've been passed a 2-D array with valid shape then let it pass through
     shape = values.shape
     if len(shape) == 2:
@@ -348,6 +367,9 @@ def transform_to_366day(
         _logger.error(message)
         raise ValueError(message)
 
+    # masked values are missing
+    original = masked_to_missing(original)
+
     # allocate the new array for 366 daily values per year,
     # including a faux Feb 29 for non-leap years
     all_leap = np.full((total_years * 366,), np.nan)
@@ -456,6 +478,9 @@ def transform_to_gregorian(
         _logger.error(message)
         raise ValueError(message)
 
+    # masked values are missing
+    original = masked_to_missing(original)
+
     # find the total number of actual days between the start and end year
     total_years = int(original.size / 366)
     year_end = year_start + total_years - 1
-- 
2.43.0


From a6c9e6e1f904839662af11c16773cc19fa252a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 24/26] fix: no Palmer indices for months without a Z-index

---
 src/climate_indices/palmer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index b29f273..d7d6cc1 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -918,5 +918,9 @@ def pdsi(
     z = data["z"].flatten()[0:original_length]
     params = {key: data[key] for key in ["alpha", "beta", "gamma", "delta"]}
 
+    # without a moisture anomaly there is no index either
+    for values in (pdsi, phdi, wplm):
+        values[np.isnan(z)] = np.nan
+
     # return results
     return pdsi,phdi,wplm,z,params
-- 
2.43.0


From a81db4c2e156dae26ecaa73c0f0edda47e67429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 25/26] fix: input files may use the same variable name

---
 src/climate_indices/__main__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 2a8a2c3..71e85f8 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -698,7 +698,7 @@ def _compute_write_index(keyword_arguments):
     files = []
     for key in ("precip", "temp", "pet"):
         if f"netcdf_{key}" in keyword_arguments:
-            files.append((keyword_arguments[f"netcdf_{key}"], keyword_arguments[f"var_name_{key}"]))
+            files.append((key, keyword_arguments[f"netcdf_{key}"], keyword_arguments[f"var_name_{key}"]))
     if "input_type" not in keyword_arguments:
         raise ValueError("Missing the 'input_type' keyword argument")
     if "chunksizes" not in keyword_arguments:
@@ -718,11 +718,16 @@ def _compute_write_index(keyword_arguments):
     # The coordinates of the files have been validated as matching within
     # a tolerance, so the values are matched by their position.
     datasets = []
-    for file, var_name in files:
+    for key, file, var_name in files:
         dataset = xr.open_dataset(file, chunks=chunks)
         # keep the latitude variable if we're dealing with divisions
         keep = [var_name, "lat"] if input_type == InputType.divisions else [var_name]
-        datasets.append(dataset.drop_vars([var for var in dataset.data_vars if var not in keep]))
+        dataset = dataset.drop_vars([var for var in dataset.data_vars if var not in keep])
+        if any(var_name in other.data_vars for other in datasets):
+            # the variables of two files have the same name, so tell them apart
+            dataset = dataset.rename({var_name: f"{var_name}_{key}"})
+            keyword_arguments[f"var_name_{key}"] = f"{var_name}_{key}"
+        datasets.append(dataset)
     dataset = xr.merge(datasets, compat="override", join="override", combine_attrs="override")
     output_chunksizes = {}
     if keyword_arguments["chunksizes"] == "input":
-- 
2.43.0


From ec8b2b431c0315aa5cc92f7e303d8d542ce7f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 26/26] fix: spi inputs may have further coordinates

---
 src/climate_indices/__spi__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 2979b0b..22dd0a9 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -573,12 +573,14 @@ def _compute_write_index(keyword_arguments):
                 },
             }
 
-            fitting_shape = [len(x) for x in ds_fitting.coords.values()]
+            # there may be more coordinates than those of the dimensions (scalars, for example)
+            fitting_dims = ("lat", "lon", keyword_arguments["periodicity"].unit())
+            fitting_shape = [ds_fitting.sizes[dim] for dim in fitting_dims]
             for var in _FITTING_VARIABLES:
                 da_fitting = xr.DataArray(
                     data=np.full(shape=fitting_shape, fill_value=np.nan),
-                    # Assumes it is in the proper order.
                     coords=ds_fitting.coords,
+                    dims=fitting_dims,
                     name=fitting_var_names[var],
                     attrs=fitting_var_attrs[var],
                 )
@@ -757,17 +759,18 @@ def build_dataset_spi_grid(
     if periodicity == compute.Periodicity.daily:
         index_values = np.apply_along_axis(
             utils.transform_to_gregorian,
-            len(ds_example.dims) - 1,
+            index_values.ndim - 1,
             index_values,
             data_start_year,
         )
 
     # create a new variable to contain the SPI values, assign into the dataset
     var_attrs = _get_variable_attributes(distribution, scale, periodicity)
+    dims = ("lat", "lon", "time")
     da_spi = xr.DataArray(
         data=index_values,
-        coords=ds_example.coords,
-        dims=("lat", "lon", "time"),
+        coords={name: coord for name, coord in ds_example.coords.items() if set(coord.dims).issubset(dims)},
+        dims=dims,
         name=spi_var_name,
         attrs=var_attrs,
     )
-- 
2.43.0

