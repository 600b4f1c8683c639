From e43466d1037f12404980f41c75c58fb43cc1db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 01/50] fix: calibrate each burst only once, also the one that
 ends a gap

---
 dedop/proc/sar/processor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index ab39662..9dcae3b 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -200,11 +200,12 @@ class L1BProcessor(BaseProcessor):
                     else:
                         monitor.progress(1)
 
-                if input_packet is not None:
-                    # apply calibrations
-                    self.cal1_algorithm(input_packet)
-                    self.cal2_algorithm(input_packet)
+                    if input_packet is not None:
+                        # apply calibrations
+                        self.cal1_algorithm(input_packet)
+                        self.cal2_algorithm(input_packet)
 
+                if input_packet is not None:
                     # check if there is a gap (or if this is the first packet & prev_time has not been set)
                     if prev_time is None or input_packet.time_sar_ku - prev_time < self.gap_threshold:
 
-- 
2.43.0


From 9b34e08e5d24810fc4332e84d02212756e5ec83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 02/50] fix: skip invalid or out-of-region records instead of
 ending the run

---
 dedop/proc/sar/processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 9dcae3b..6981466 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -200,6 +200,10 @@ class L1BProcessor(BaseProcessor):
                     else:
                         monitor.progress(1)
 
+                        # ignore records that are invalid or outside the region of interest
+                        if input_packet is None:
+                            continue
+
                     if input_packet is not None:
                         # apply calibrations
                         self.cal1_algorithm(input_packet)
-- 
2.43.0


From 06c93fbd0ad0a88ce6c157ec8adfb9836a0d07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 03/50] fix: reset the working queues and the focusing state at
 the start of each run

---
 dedop/proc/sar/processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 6981466..b6fb0a9 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -133,6 +133,9 @@ class L1BProcessor(BaseProcessor):
         self.beam_angles_list_size_prev = -1
         self.beam_angles_trend_prev = -1
         self.surfaces_count = 0
+        self._surfaces = []
+        self._packets = []
+        self.surface_locations_algorithm.focus_found = False
 
         # find base name of input file
         l1a_base, _ = os.path.splitext(os.path.basename(l1a_file))
-- 
2.43.0


From e88ac73f8be6e00eb41506e26548da1e59b9c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 04/50] fix: restart the beam angles trend after a gap

---
 dedop/proc/sar/processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index b6fb0a9..f2a3c7e 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -277,6 +277,9 @@ class L1BProcessor(BaseProcessor):
                     gap_processing = False  # end gap mode
                     gap_resume = True  # next iteration will be the first after the gap
                     surface_processing = False  # require min. number of surfaces again
+                    # the beam angles of the bursts before the gap say nothing about those after it
+                    self.beam_angles_list_size_prev = -1
+                    self.beam_angles_trend_prev = -1
                     sub_monitor.done()
                 else:
                     # the end of the input has been reached
-- 
2.43.0


From 047ca2da5088f1e54394ed42c300a15cec321a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 05/50] fix: gap processing must not push the progress beyond
 the total work

---
 dedop/proc/sar/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index f2a3c7e..efc0055 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -227,7 +227,7 @@ class L1BProcessor(BaseProcessor):
                     else:
                         gap_processing = True
                         prev_time = None
-                        sub_monitor = monitor.child(1)
+                        sub_monitor = monitor.child(0)
                         sub_monitor.start("processing gap", len(self.surf_locs))
 
             elif sub_monitor is not None:
-- 
2.43.0


From 3bd29a626c4b6a2d03f8eeca861ce3070a57b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 06/50] fix: include the last record inside the region of
 interest

---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index de315a4..db8f7e2 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -116,7 +116,7 @@ class L1ADataset(InputDataset):
             self._roi_filter = roi_filter
             indexes = np.argwhere(roi_filter)
             self._start_index = indexes.min()
-            self._final_index = indexes.max()
+            self._final_index = indexes.max() + 1
         else:
             self._roi_filter = None
             self._start_index = 0
-- 
2.43.0


From 2219c3d990adf450160d20aed7cc005ec03ef02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 07/50] fix: centre-of-gravity correction uses the pitch angle
 in degrees

---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index db8f7e2..40d1a2d 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -166,7 +166,7 @@ class L1ADataset(InputDataset):
         # construct waveform
         waveform = (self.get_value(L1AVariables.i_meas_ku_l1a_echo_sar_ku, index) +
                     1j * self.get_value(L1AVariables.q_meas_ku_l1a_echo_sar_ku, index)) / scale_factor
-        zcog = np.cos(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index)) *\
+        zcog = np.cos(radians(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index))) *\
                self.get_value(L1AVariables.cog_cor_l1a_echo_sar_ku, index)
         range = self.get_value(L1AVariables.range_ku_l1a_echo_sar_ku, index) + zcog
 
-- 
2.43.0


From 152d73c762bf41060738fef135ea91e72ce9c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:21 +0000
Subject: [PATCH 08/50] fix: hamming and hanning azimuth window coefficients
 were swapped

---
 dedop/proc/sar/algorithms/azimuth_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index 7e4e869..c2bfd0e 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -60,10 +60,10 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
             window[start:end] = 1.
         elif window_shape == AzimuthWindowingMethod.hamming:
             n = np.arange(width)
-            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
+            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
         elif window_shape == AzimuthWindowingMethod.hanning:
             n = np.arange(width)
-            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
+            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
         else:
             raise NotImplementedError(
                 "Unsupported Azimuth Windowing Method: {}".format(window_shape)
-- 
2.43.0


From 1bc3e8753649f59d5270e5b63881016f43e39994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 09/50] fix: antenna weight interpolation measured the angle
 from the weight, not the angle grid

---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 33aa647..ac1d249 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -212,7 +212,7 @@ class MultilookingAlgorithm(BaseAlgorithm):
             weight_right = self.chd.antenna_weights[index_right]
 
             # get proportion between the left & right weights
-            alpha = (angle - weight_left) / self.chd.antenna_angles_spacing
+            alpha = (angle - self.chd.antenna_angles[index_left]) / self.chd.antenna_angles_spacing
             # interpolate value
             selected_weight = weight_left + alpha * (weight_right - weight_left)
 
-- 
2.43.0


From e42f27063fc62c4bf21575a8ef824fc17409b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 10/50] fix: altitude at the south pole

---
 dedop/proc/geo/ecef2lla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/geo/ecef2lla.py b/dedop/proc/geo/ecef2lla.py
index cbe6279..1953751 100644
--- a/dedop/proc/geo/ecef2lla.py
+++ b/dedop/proc/geo/ecef2lla.py
@@ -88,7 +88,7 @@ def ecef2lla(ecef: Sequence[float], cst: ConstantsFile) -> Tuple[float, float, f
 
     if isinstance(alt, numbers.Number):
         if abs(x)<1 and abs(y)<1:
-            alt = z - b
+            alt = abs(z) - b
     else:
         k = logical_and(abs(x)<1, abs(y)<1)
         alt[k] = abs(z[k]) - b
-- 
2.43.0


From e55ae8061ec6d2eda743e2d5e1b517b8e38ae261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 11/50] fix: angle between anti-parallel vectors

---
 dedop/proc/functions/vectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/proc/functions/vectors.py b/dedop/proc/functions/vectors.py
index 0f8f7b8..9e3263a 100644
--- a/dedop/proc/functions/vectors.py
+++ b/dedop/proc/functions/vectors.py
@@ -10,5 +10,7 @@ def angle_between(vec1: np.ndarray, vec2: np.ndarray) -> float:
           (norm(vec1) * norm(vec2))
     if arg > 1:
         arg = 1
+    elif arg < -1:
+        arg = -1
 
     return np.arccos(arg)
-- 
2.43.0


From 6ccd25eab71e653f39cc32fcd76bff6c4bc44712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:22 +0000
Subject: [PATCH 12/50] fix: UTC time of the first surface of a run and of the
 first one after a gap

---
 dedop/proc/sar/algorithms/surface_locations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index f71bb4c..6f63993 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -123,6 +123,11 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
 
         self.win_delay_surf = isp_record.win_delay_sar_ku
 
+        self.prev_tai = isp_record.time_sar_ku
+        self.prev_utc_days = isp_record.days
+        self.prev_utc_secs = isp_record.seconds
+        self.curr_day_length = np.inf
+
     def focus_surface(self, surface_to_move: SurfaceData, previous_surface: SurfaceData) -> None:
         """
         move the location of a surface to the closest approach to the target position
-- 
2.43.0


From 1b83c23823501fe168e13f272d878157e7924481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:22 +0000
Subject: [PATCH 13/50] fix: UTC time of a surface within a leap second

---
 dedop/proc/sar/algorithms/surface_locations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index 6f63993..57e2a31 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -327,7 +327,10 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
         self.prev_tai = isp_prev.time_sar_ku
         self.prev_utc_days = isp_prev.days
         self.prev_utc_secs = isp_prev.seconds
-        self.curr_day_length = self.cst.sec_in_day +\
+        # between two bursts of the same day the day does not end (they may be inside a leap second)
+        self.curr_day_length = np.where(
+            isp_curr.days == isp_prev.days, np.inf, self.cst.sec_in_day +
             (isp_curr.leap_secs_since_2000 - isp_prev.leap_secs_since_2000)
+        )
 
         return True
-- 
2.43.0


From 700bffb73548dd7a0a8eb77eb8154c1f6ee31784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:22 +0000
Subject: [PATCH 14/50] fix: UTC day changes when the seconds reach the day
 length

---
 dedop/data/output/l1b_writer.py  | 4 ++--
 dedop/data/output/l1bs_writer.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index ca199f2..8420d5e 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -847,7 +847,7 @@ class L1BWriterExtended(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
@@ -1569,7 +1569,7 @@ class L1BWriter(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 5699eb3..78b05d0 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -634,7 +634,7 @@ class L1BSWriter(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
-- 
2.43.0


From 2153a9f6bbf45a159dfcb814149025d0041ecca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:39 +0000
Subject: [PATCH 15/50] fix: a short segment at the end of the input must not
 discard the whole product

---
 dedop/proc/sar/processor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index efc0055..6d9e36a 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -129,6 +129,7 @@ class L1BProcessor(BaseProcessor):
     def _process(self, l1a_file, monitor):
         running = True
         surface_processing = False
+        surfaces_processed = False
         status = -1
         self.beam_angles_list_size_prev = -1
         self.beam_angles_trend_prev = -1
@@ -199,7 +200,10 @@ class L1BProcessor(BaseProcessor):
                     except StopIteration:
                         input_packet = None
                         if not surface_processing:
-                            raise Exception("insufficient input records")
+                            if not surfaces_processed:
+                                raise Exception("insufficient input records")
+                            # process what remains after the last gap
+                            surface_processing = True
                     else:
                         monitor.progress(1)
 
@@ -235,6 +239,7 @@ class L1BProcessor(BaseProcessor):
 
             if surface_processing or len(self.surf_locs) >= self.min_surfs or gap_processing:
                 surface_processing = True
+                surfaces_processed = True
 
                 working_loc = self.surf_locs[0]
 
-- 
2.43.0


From fb012f925d9c815ddcd6f77b7445ed52a6ee61d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:22 +0000
Subject: [PATCH 16/50] fix: close input and output files when a run ends or
 fails

---
 dedop/data/output/netcdf_writer.py |  3 ++-
 dedop/proc/sar/processor.py        | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/netcdf_writer.py b/dedop/data/output/netcdf_writer.py
index 62b07e9..8644c4c 100644
--- a/dedop/data/output/netcdf_writer.py
+++ b/dedop/data/output/netcdf_writer.py
@@ -336,7 +336,8 @@ class NetCDFWriter(metaclass=ABCMeta):
         """
         close the netCDF file
         """
-        self._root.close()
+        if self._root.isopen():
+            self._root.close()
 
     def get_variable(self, varname: str) -> nc.Variable:
         return getattr(self, varname)
diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 6d9e36a..9bd76f5 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -113,8 +113,16 @@ class L1BProcessor(BaseProcessor):
 
         t0 = time.time()
 
-        with monitor.starting('processing', total_work=len(self.l1a_file)):
-            status = self._process(l1a_file, monitor)
+        self.l1b_file = None
+        self.l1bs_file = None
+        try:
+            with monitor.starting('processing', total_work=len(self.l1a_file)):
+                status = self._process(l1a_file, monitor)
+        finally:
+            # release all files, also if the processing fails
+            for file in (self.l1a_file, self.l1b_file, self.l1bs_file):
+                if file is not None:
+                    file.close()
 
         dt = time.time() - t0
 
-- 
2.43.0


From 461e73b9223c24e9729395e78a530f91e48c053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:18 +0000
Subject: [PATCH 17/50] fix: a stack without any power must not end the run

---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index ac1d249..8034430 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -33,7 +33,7 @@ def gauss_fit(x: np.ndarray, y: np.ndarray) -> List[float]:
             fit_params, _ = curve_fit(
                 gauss, x, y
             )
-        except (RuntimeError, OptimizeWarning, TypeError):
+        except (RuntimeError, OptimizeWarning, TypeError, ValueError):
             return [1, 1, 1]
 
     return fit_params
-- 
2.43.0


From 6cdeb91a26d08c0caa651ab8983e0d13974cd8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:18 +0000
Subject: [PATCH 18/50] fix: the standard deviation of the stack is not
 negative

---
 dedop/proc/sar/algorithms/multilooking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 8034430..a758875 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -137,7 +137,8 @@ class MultilookingAlgorithm(BaseAlgorithm):
         fit_params_l = gauss_fit(look_angles_surf_center, beam_power_center)
         self.stack_max = fit_params_l[0]
         self.look_angle_centre = fit_params_l[1]
-        self.stack_std = fit_params_l[2] / 2
+        # only the square of the width is determined by the fit
+        self.stack_std = abs(fit_params_l[2]) / 2
 
         fit_params_p = gauss_fit(pointing_angles_surf_center, beam_power_center)
         self.pointing_angle_centre = fit_params_p[1]
-- 
2.43.0


From ca9d134ffb41244609d85e5b34f4db47af6d32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:18 +0000
Subject: [PATCH 19/50] fix: samples that are masked in all beams are zero, not
 NaN

---
 dedop/proc/sar/algorithms/multilooking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index a758875..2d78b8b 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -273,7 +273,8 @@ class MultilookingAlgorithm(BaseAlgorithm):
             self.waveform_multilooked[:] += weighted_beams[beam_index, :] * mask
             self.sample_counter[:] += mask
 
-        self.waveform_multilooked /= self.sample_counter
+        # samples without any contribution stay zero
+        self.waveform_multilooked /= np.maximum(self.sample_counter, 1)
 
         if stop_beam_index is None or start_beam_index is None:
             self.n_beams_start_stop = 0
-- 
2.43.0


From 0543d1558e295a8e49e913f3d7cc7ccecddd16f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:18 +0000
Subject: [PATCH 20/50] fix: look angles do not fit into the packing of the
 extended L1B product

---
 dedop/data/output/l1b_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index 8420d5e..82c8c6e 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -699,7 +699,7 @@ class L1BWriterExtended(NetCDFWriter):
             comment="the useful values of the table are the first n_useful values where n_useful is"
                     "the number of waveforms summed in the stack",
             scale_factor=1.0e-06,
-            add_offset=1.57,
+            add_offset=0.0,
             units="rad",
             fill_value=32767
         )
-- 
2.43.0


From 39c5d1ccf03037424b062eb7e9cd1cc170048075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:18 +0000
Subject: [PATCH 21/50] fix: waveform without any power in the extended L1B
 product

---
 dedop/data/output/l1b_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index 82c8c6e..0b6184d 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -855,6 +855,8 @@ class L1BWriterExtended(NetCDFWriter):
 
         # scale_factor = pow(10, -closest_burst.agc_ku / 10)
         scale_factor = surface_location_data.waveform_multilooked.max()
+        if scale_factor == 0:
+            scale_factor = 1.
 
         # import matplotlib.pyplot as plt
         # plt.plot(surface_location_data.waveform_multilooked)
-- 
2.43.0


From 3ec0cafd38bdb7498dacab0d6d5bb5fd1c1ecc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:18 +0000
Subject: [PATCH 22/50] fix: satellite pointing angles of the L1BS product are
 in degrees

---
 dedop/data/output/l1bs_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 78b05d0..8849794 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -667,9 +667,9 @@ class L1BSWriter(NetCDFWriter):
             meas_x_pos_l1bs_echo_sar_ku=surface_location_data.x_surf,
             meas_y_pos_l1bs_echo_sar_ku=surface_location_data.y_surf,
             meas_z_pos_l1bs_echo_sar_ku=surface_location_data.z_surf,
-            roll_sat_pointing_l1bs_echo_sar_ku=surface_location_data.roll_sat,
-            pitch_sat_pointing_l1bs_echo_sar_ku=surface_location_data.pitch_sat,
-            yaw_sat_pointing_l1bs_echo_sar_ku=surface_location_data.yaw_sat,
+            roll_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.roll_sat),
+            pitch_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.pitch_sat),
+            yaw_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.yaw_sat),
             roll_sral_mispointing_l1bs_echo_sar_ku=closest_burst.roll_sral_mispointing,
             pitch_sral_mispointing_l1bs_echo_sar_ku=closest_burst.pitch_sral_mispointing,
             yaw_sral_mispointing_l1bs_echo_sar_ku=closest_burst.yaw_sral_mispointing,
-- 
2.43.0


From 997af00c3e0eb1f21a924127ac6c1664c2ab946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 23/50] fix: renaming a workspace to an existing name moved it
 into that workspace

---
 dedop/ui/workspace_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9fdb6ec..cc5f43e 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -160,6 +160,8 @@ class WorkspaceManager:
         self._assert_workspace_exists(workspace_name)
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
+        if self.workspace_exists(new_workspace_name):
+            raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
             try:
-- 
2.43.0


From f2813f8853f41b673ee481aded2c1b7abc2f62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 24/50] fix: current workspace is located in the directory of
 its workspace manager

---
 dedop/ui/workspace_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index cc5f43e..cc29d28 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -97,7 +97,9 @@ class WorkspaceManager:
 
     def get_current_workspace(self) -> Workspace:
         current_workspace = _readline(os.path.join(self._workspaces_dir, _CURRENT_FILE_NAME))
-        return Workspace(None, current_workspace)
+        if not current_workspace:
+            return Workspace(None, current_workspace)
+        return Workspace(self.get_workspace_path(current_workspace), current_workspace, is_current=True)
 
     def set_current_workspace_name(self, workspace_name: str):
         self._assert_workspace_exists(workspace_name)
-- 
2.43.0


From 1eb4546d414d34607525c620696eeb9082221eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 25/50] fix: files matching several patterns are listed once

---
 dedop/ui/workspace_manager.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index cc29d28..9fbe148 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -644,12 +644,7 @@ class WorkspaceManager:
         if isinstance(pattern, str):
             fn_list = [fn for fn in fn_list if fnmatch.fnmatch(fn, pattern)]
         elif pattern:
-            new_fn_list = []
-            for fn in fn_list:
-                for p in pattern:
-                    if fnmatch.fnmatch(fn, p):
-                        new_fn_list.append(fn)
-            fn_list = new_fn_list
+            fn_list = [fn for fn in fn_list if any(fnmatch.fnmatch(fn, p) for p in pattern)]
         return sorted(fn_list)
 
     @classmethod
-- 
2.43.0


From cd63cbfffbeef847fcba3e7c3ca7c6e7d55b3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 26/50] fix: operations on a workspace with an empty name acted
 on all workspaces

---
 dedop/ui/workspace_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9fbe148..aec0f19 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -102,7 +102,9 @@ class WorkspaceManager:
         return Workspace(self.get_workspace_path(current_workspace), current_workspace, is_current=True)
 
     def set_current_workspace_name(self, workspace_name: str):
-        self._assert_workspace_exists(workspace_name)
+        # an empty name means: no current workspace
+        if workspace_name:
+            self._assert_workspace_exists(workspace_name)
         _writeline(os.path.join(self._workspaces_dir, _CURRENT_FILE_NAME), workspace_name)
         workspace_dir = self.get_workspace_path(workspace_name)
         return Workspace(workspace_dir, workspace_name, is_current=True)
@@ -143,6 +145,8 @@ class WorkspaceManager:
         :raise: WorkspaceError
         """
         self._assert_workspace_exists(workspace_name)
+        if not new_workspace_name:
+            raise WorkspaceError("missing the new workspace name")
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
             try:
@@ -673,7 +677,7 @@ class WorkspaceManager:
             '...' + name[3 - max_len:] if mode == 'r' else name[:max_len - 3] + '...')
 
     def _assert_workspace_exists(self, workspace_name):
-        if not os.path.exists(self.get_workspace_path(workspace_name)):
+        if not workspace_name or not os.path.exists(self.get_workspace_path(workspace_name)):
             raise WorkspaceError('workspace "%s" does not exist' % workspace_name)
 
     def _assert_config_exists(self, workspace_name, config_name):
-- 
2.43.0


From 576815d3764842f2f585607870d3742de4ab7f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 27/50] fix: operations on a configuration with an empty name
 acted on all configurations

---
 dedop/ui/workspace_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index aec0f19..4eaeed4 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -204,6 +204,8 @@ class WorkspaceManager:
         :param config_name: the name of the configuration to be added
         """
         self._assert_workspace_exists(workspace_name)
+        if not config_name:
+            raise WorkspaceError('no DDP configuration name is specified')
         if self.config_exists(workspace_name, config_name):
             raise WorkspaceError('workspace "%s" already contains a configuration "%s"' % (workspace_name, config_name))
         config_dir = self.get_config_path(workspace_name, config_name)
@@ -292,7 +294,9 @@ class WorkspaceManager:
 
     def set_current_config_name(self, workspace_name: str, config_name: str):
         self._assert_workspace_exists(workspace_name)
-        self._assert_config_exists(workspace_name, config_name)
+        # an empty name means: no current configuration
+        if config_name:
+            self._assert_config_exists(workspace_name, config_name)
         _writeline(self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, _CURRENT_FILE_NAME), config_name)
 
     def get_config_version(self, workspace_name: str, config_name: str, config_file_key: str) -> int:
@@ -681,6 +685,6 @@ class WorkspaceManager:
             raise WorkspaceError('workspace "%s" does not exist' % workspace_name)
 
     def _assert_config_exists(self, workspace_name, config_name):
-        if not os.path.exists(self.get_config_path(workspace_name, config_name)):
+        if not config_name or not os.path.exists(self.get_config_path(workspace_name, config_name)):
             raise WorkspaceError(
                 'DDP configuration "%s" of workspace "%s" does not exist' % (config_name, workspace_name))
-- 
2.43.0


From ba3720f592b8ac495233e216671fe265cbfb602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 28/50] fix: renaming a configuration replaced an existing
 empty one

---
 dedop/ui/workspace_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 4eaeed4..7702e5d 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -259,6 +259,9 @@ class WorkspaceManager:
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
         dir_path_new = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, new_config_name)
+        if os.path.exists(dir_path_new):
+            raise WorkspaceError('workspace "%s" already contains a configuration "%s"'
+                                 % (workspace_name, new_config_name))
         if os.path.exists(dir_path):
             try:
                 os.rename(dir_path, dir_path_new)
-- 
2.43.0


From 4d187474f3a099424183570ba15faa7bec278d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 29/50] fix: list of workspaces is sorted, exact and marks the
 current one

---
 dedop/ui/workspace_manager.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 7702e5d..727e6b8 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -186,12 +186,9 @@ class WorkspaceManager:
         return []
 
     def get_workspaces(self) -> List[str]:
-        workspaces_dir = self._workspaces_dir
-        if os.path.exists(workspaces_dir):
-            workspaces = [
-                Workspace(os.path.join(workspaces_dir, name), name).to_json_dict() if name != '.current' else None
-                for name in os.listdir(workspaces_dir)]
-            return list(filter(None, workspaces))
+        current_workspace = self.get_current_workspace().name
+        return [Workspace(self.get_workspace_path(name), name, is_current=name == current_workspace).to_json_dict()
+                for name in self.get_workspace_names()]
 
     def config_exists(self, workspace_name: str, config_name: str) -> bool:
         config_dir = self.get_config_path(workspace_name, config_name)
-- 
2.43.0


From 79d7bcf45e08e9efa39a3826ff8f0ad8e1a352b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 30/50] fix: workspace without configurations has an empty list
 of them

---
 dedop/ui/workspace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 727e6b8..d5205d0 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -286,7 +286,7 @@ class WorkspaceManager:
         configs_dir = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME)
         if os.path.exists(configs_dir):
             return sorted([name for name in os.listdir(configs_dir) if os.path.isdir(os.path.join(configs_dir, name))])
-        return None
+        return []
 
     def get_current_config_name(self, workspace_name: str) -> str:
         self._assert_workspace_exists(workspace_name)
-- 
2.43.0


From 71bfaef474caf24e27337e6eebe24d9ea30cc0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 31/50] fix: notebooks of products whose path contains quotes
 are valid

---
 dedop/ui/workspace_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index d5205d0..8d5f106 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -479,7 +479,7 @@ class WorkspaceManager:
     def inspect_l1b_product(self, workspace_name: str, l1b_path: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'inspect-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH__', repr(l1b_path).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH__', json.dumps(repr(l1b_path))[1:-1])
         product_name = ntpath.basename(l1b_path)
         return self._launch_notebook_from_template(workspace_name,
                                                    'inspect-%s' % product_name,
@@ -490,8 +490,8 @@ class WorkspaceManager:
     def compare_l1b_products(self, workspace_name, l1b_path_1: str, l1b_path_2: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'compare-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH_1__', repr(l1b_path_1).replace('\\', '\\\\')) \
-            .replace('__L1B_FILE_PATH_2__', repr(l1b_path_2).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH_1__', json.dumps(repr(l1b_path_1))[1:-1]) \
+            .replace('__L1B_FILE_PATH_2__', json.dumps(repr(l1b_path_2))[1:-1])
         product1_name = ntpath.basename(l1b_path_1)
         product2_name = ntpath.basename(l1b_path_2)
         return self._launch_notebook_from_template(workspace_name,
-- 
2.43.0


From 9acbed27a8a6eba919292b0b12e4227c1ee766cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 32/50] fix: second product of the compare command

---
 dedop/cli/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index 93fb027..a2f29e8 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -958,8 +958,8 @@ class ManageOutputsCommand(SubCommandCommand):
             if not os.path.exists(l1b_path_1):
                 raise CommandError('First L1B product not found: %s' % l1b_path_1)
 
-            l1b_filename_2 = command_args.l1b_filename_2
-            if os.path.dirname(l1b_filename_1):
+            l1b_filename_2 = command_args.l1b_filename_2 or l1b_filename_1
+            if os.path.dirname(l1b_filename_2):
                 l1b_path_2 = os.path.abspath(l1b_filename_2)
             else:
                 if not workspace_name_2:
@@ -972,7 +972,7 @@ class ManageOutputsCommand(SubCommandCommand):
                 raise CommandError('Second L1B product not found: %s' % l1b_path_2)
 
             if os.path.samefile(l1b_path_1, l1b_path_2):
-                print('warning: comparing "%s" with itself')
+                print('warning: comparing "%s" with itself' % l1b_path_1)
 
             _WORKSPACE_MANAGER.compare_l1b_products(workspace_name_1, l1b_path_1, l1b_path_2)
         except WorkspaceError as error:
-- 
2.43.0


From 0a360d666ec0d6da9247d7eda64fcfc57777fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:49 +0000
Subject: [PATCH 33/50] fix: numeric global attributes are JSON-serialisable

---
 dedop/webapi/websocket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index e3596c9..aa0c262 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -181,6 +181,7 @@ class WebSocketService:
     @staticmethod
     def get_global_attributes(input_file_path) -> dict:
         ds = Dataset(input_file_path)
-        global_attributes = ds.__dict__
+        global_attributes = {name: value.tolist() if hasattr(value, 'tolist') else value
+                             for name, value in ds.__dict__.items()}
         ds.close()
         return global_attributes
-- 
2.43.0


From aee07265ebdeaed8c8084b2f173f6c76aafe9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 34/50] fix: bursts that see no surface do not abort the
 approximate method

---
 dedop/proc/sar/algorithms/azimuth_processing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index c2bfd0e..ccc644e 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -84,6 +84,10 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
         :param windowed_wfm: the input waveform with windowing applied
         :param wavelength_ku: signal wavelength
         """
+        if len(packet.beam_angles_list) == 0:
+            # the burst sees no surface: there is no beam to form
+            return
+
         # find the nadir beam angle
         nadir_beam_angle = self.get_nadir_beam_angle(packet)
 
-- 
2.43.0


From 8395e6a0818b0262931b30224cfd4a7294006047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 35/50] fix: bursts before a gap are not used for surfaces
 after it

---
 dedop/proc/sar/processor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 9bd76f5..7f21c8f 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -290,6 +290,8 @@ class L1BProcessor(BaseProcessor):
                     gap_processing = False  # end gap mode
                     gap_resume = True  # next iteration will be the first after the gap
                     surface_processing = False  # require min. number of surfaces again
+                    # bursts before the gap (also those that saw no surface) must not be used after it
+                    self._packets = []
                     # the beam angles of the bursts before the gap say nothing about those after it
                     self.beam_angles_list_size_prev = -1
                     self.beam_angles_trend_prev = -1
-- 
2.43.0


From fd47ab15f08300f1874fa81014829481e852a0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:49 +0000
Subject: [PATCH 36/50] fix: reading past the end of an L1A file does not
 deliver another record

---
 dedop/data/input/netcdf_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/data/input/netcdf_reader.py b/dedop/data/input/netcdf_reader.py
index c566725..2681698 100644
--- a/dedop/data/input/netcdf_reader.py
+++ b/dedop/data/input/netcdf_reader.py
@@ -66,6 +66,8 @@ class NetCDFReader:
             varlen = var.shape[0]
 
             if chunk_start >= varlen:
+                # nothing to read here, but do not keep the values of another block
+                self.cache[varname] = np.empty((0,) + var.shape[1:])
                 continue
 
             end = min(varlen, chunk_end)
-- 
2.43.0


From 624735ec692d35cdb2a8508e77a37c60b1c04c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:49 +0000
Subject: [PATCH 37/50] fix: an input without a product name does not abort the
 run

---
 dedop/data/input/l1a/l1a_dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index 40d1a2d..84716cd 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -76,9 +76,13 @@ class L1AGlobals:
             attrs.get('product_name')
 
     def get_l1b_product_name(self):
+        if self.product_name is None:
+            return None
         return self.product_name.replace('_A__', '____')
 
     def get_l1bs_product_name(self):
+        if self.product_name is None:
+            return None
         return self.product_name.replace('_A__', '_BS_')
 
 
-- 
2.43.0


From 6a58d68de61eb964b3d65d13b15dbfe9a8f0de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:46 +0000
Subject: [PATCH 38/50] fix: invalid configuration values are reported instead
 of silently replaced by algorithm defaults

---
 dedop/proc/sar/base_algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/base_algorithm.py b/dedop/proc/sar/base_algorithm.py
index d2f8574..f736a52 100644
--- a/dedop/proc/sar/base_algorithm.py
+++ b/dedop/proc/sar/base_algorithm.py
@@ -1,4 +1,5 @@
 from ...util.parameter import Parameter
+from ...conf.auxiliary_errors import MissingParameterError
 from ...conf import ConstantsFile, CharacterisationFile, ConfigurationFile
 
 
@@ -36,5 +37,5 @@ class BaseAlgorithm:
                 setattr(self, param.name, param.value_set)
             try:
                 setattr(self, param.name, getattr(self.cnf, param.name))
-            except:
+            except (AttributeError, MissingParameterError):
                 setattr(self, param.name, param.default_value)
\ No newline at end of file
-- 
2.43.0


From 3c7c592f9a256037fbe060ad247678af18b52d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:43 +0000
Subject: [PATCH 39/50] fix: CryoSat characterisation template declares the
 current file version

---
 dedop/ui/data/cryosat_config/CHD.json | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/data/cryosat_config/CHD.json b/dedop/ui/data/cryosat_config/CHD.json
index b19c160..41ee40e 100644
--- a/dedop/ui/data/cryosat_config/CHD.json
+++ b/dedop/ui/data/cryosat_config/CHD.json
@@ -15,10 +15,19 @@
                 "comment": "initial version",
                 "parameters": [],
                 "version": 0
+            },
+            {
+                "comment": "added new parameters for update to sigma-0 algorithm",
+                "parameters": [
+                    ["ratio_trc_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["fft_step_freq_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["ptr_width_chd", "+", "required for sigma-0 scaling factor"]
+                ],
+                "version": 1
             }
         ],
         "description": "DeDop Characterisation File",
-        "version": 0
+        "version": 1
     },
     "alt_freq_multiplier_chd": {
         "description": "Factor to convert from USO frequency to altimeter frequency",
-- 
2.43.0


From 1306bb3787fb8dd9b5346c848cc170bb5d84ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 40/50] fix: the dummy processor reports failures as
 ProcessorException

---
 dedop/model/processor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedop/model/processor.py b/dedop/model/processor.py
index 7da95b5..d690d01 100644
--- a/dedop/model/processor.py
+++ b/dedop/model/processor.py
@@ -2,6 +2,7 @@ import os.path
 import time
 from abc import ABCMeta, abstractmethod
 
+from dedop.model.exception import ProcessorException
 from dedop.util.monitor import Monitor
 
 
-- 
2.43.0


From 1f49b3be54d5c06c598571cd8838cab813c2d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:28 +0000
Subject: [PATCH 41/50] fix: saving some of the web service's configurations
 does not wipe the others

---
 dedop/webapi/websocket.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index aa0c262..94ed57a 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -117,12 +117,12 @@ class WebSocketService:
         }
 
     def save_configs(self, workspace_name: str, config_name: str, configurations: dict):
-        chd = json.dumps(configurations.get("chd"), indent=4, separators=(',', ': '), sort_keys=True)
-        self.workspace_manager.write_config_file(workspace_name, config_name, "CHD", chd)
-        cnf = json.dumps(configurations.get("cnf"), indent=4, separators=(',', ': '), sort_keys=True)
-        self.workspace_manager.write_config_file(workspace_name, config_name, "CNF", cnf)
-        cst = json.dumps(configurations.get("cst"), indent=4, separators=(',', ': '), sort_keys=True)
-        self.workspace_manager.write_config_file(workspace_name, config_name, "CST", cst)
+        for config_file_key in ("CHD", "CNF", "CST"):
+            configuration = configurations.get(config_file_key.lower())
+            # leave the files alone for which nothing has been given
+            if configuration is not None:
+                text = json.dumps(configuration, indent=4, separators=(',', ': '), sort_keys=True)
+                self.workspace_manager.write_config_file(workspace_name, config_name, config_file_key, text)
 
     def process(self, process_name: str, workspace_name: str, config_name: str, output_path, l1a_file: str,
                 monitor: Monitor):
-- 
2.43.0


From 52794e33d105011ce5e7cc219f71c689464dbdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 42/50] fix: config files may use functions that refer to their
 own variables

---
 dedop/util/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/util/config.py b/dedop/util/config.py
index 7f472b4..281a264 100644
--- a/dedop/util/config.py
+++ b/dedop/util/config.py
@@ -78,7 +78,9 @@ def read_python_config(file):
     try:
         config = {}
         code = compile(fp.read(), file if isinstance(file, str) else '<NO FILE>', 'exec')
-        exec(code, None, config)
+        exec(code, config)
+        # added by exec(), not an assignment of the configuration file
+        config.pop('__builtins__', None)
         return config
     finally:
         if fp is not file:
-- 
2.43.0


From 52481ba545598c0a91f14c95aacac518be3c5291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 43/50] fix: time range of an inspected product fails on masked
 date arrays

---
 dedop/ui/inspect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 97a6f6a..798bafa 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -114,7 +114,7 @@ class L1bProductInspector:
         time = time_var[:]
         self.time = num2date(time, time_var.units, calendar=time_var.calendar)
         self.time_0 = num2date(time.mean(), time_var.units, calendar=time_var.calendar)
-        self.time_range = self.time.min(), self.time.max()
+        self.time_range = tuple(num2date((time.min(), time.max()), time_var.units, calendar=time_var.calendar))
 
         waveform_counts = dataset['i2q2_meas_ku_%s_echo_sar_ku' % product_type][:]
         waveform_scaling = dataset['scale_factor_ku_%s_echo_sar_ku' % product_type][:]
-- 
2.43.0


From 8e806e1b8f13aae42de5ab1ca5565179ccf45f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 44/50] fix: images of a variable show the waveform instead of
 the variable

---
 dedop/ui/inspect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 798bafa..a124595 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -374,7 +374,7 @@ class L1bProductInspectorPlots:
         zmin = zmin if zmin else var_data.min()
         zmax = zmax if zmax else var_data.max()
         plt.figure(figsize=(10, 10))
-        plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
+        plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
         plt.xlabel('%s (index)' % var.dimensions[1])
         plt.ylabel('%s (index)' % var.dimensions[0])
@@ -587,7 +587,7 @@ class L1bProductInspectorPlots:
             # fig.axes.remove(ax2)
             ax2.remove()
 
-        im = ax3.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto',
+        im = ax3.imshow(var_data, interpolation='nearest', aspect='auto',
                         vmin=zmin, vmax=zmax, cmap=cmap)
         if has_xind:
             ax3.axvline(x=xind)
-- 
2.43.0


From 25bfece3cc8b76e615e08250240f5b229b72e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 45/50] fix: images mix up the requested minimum and maximum
 display values

---
 dedop/ui/inspect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index a124595..fe81a51 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -355,7 +355,7 @@ class L1bProductInspectorPlots:
                         name_options.extend(var_names)
                 name_options = sorted(name_options)
                 # TODO (forman, 20160709): add sliders for zmin, zmax
-                interact(self._plot_im, z_name=name_options, zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                interact(self._plot_im, z_name=name_options, zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
             else:
                 raise ValueError('name must be given')
         else:
@@ -532,11 +532,11 @@ class L1bProductInspectorPlots:
                 # TODO (forman, 20160709): add sliders for zmin, zmax
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
-                         zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                         zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
         else:
             if not z:
                 raise ValueError('z_name must be given')
-            self._plot_im_line(z, zmin=zmin, zmax=zmin, xind=xind, yind=yind, cmap=cmap)
+            self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
 
     def _plot_im_line(self, z_name, zmin=None, zmax=None, xind=None, yind=None, cmap='jet'):
         assert z_name
-- 
2.43.0


From 2ac892b0a399c760b64053b10ccc3d7786127774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 46/50] fix: a requested display limit of zero is ignored

---
 dedop/ui/compare.py | 20 ++++++++++----------
 dedop/ui/inspect.py | 16 ++++++++--------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/dedop/ui/compare.py b/dedop/ui/compare.py
index 4e92a34..30fb38d 100644
--- a/dedop/ui/compare.py
+++ b/dedop/ui/compare.py
@@ -201,8 +201,8 @@ class L1bProductComparatorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveforms_delta_im(self, vmin=None, vmax=None, cmap='RdBu_r'):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._comparator.waveforms_delta, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax,
                    cmap=cmap)
@@ -227,8 +227,8 @@ class L1bProductComparatorPlots:
         :param color2: Color of the second histogram
         :param alpha: Alpha value for histograms
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -267,8 +267,8 @@ class L1bProductComparatorPlots:
         :param bins: Number of bins
         :param log: Show logarithms of bin counts
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -290,8 +290,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms_delta-hist.png")
 
     def waveforms_scatter(self, vmin=None, vmax=None):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform
@@ -310,8 +310,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms-scatter.png")
 
     def waveforms_hexbin(self, vmin=None, vmax=None, cmap='Blues', log=True):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform.flatten()
diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index fe81a51..9ebdc38 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -210,8 +210,8 @@ class L1bProductInspectorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveform_im(self, vmin=None, vmax=None, cmap='jet'):
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax, cmap=cmap)
         plt.xlabel('Echo Sample Index')
@@ -294,8 +294,8 @@ class L1bProductInspectorPlots:
         :param log: Show logarithms of bin counts
         :param color: Color of the histogram bars, e.g. 'green'
         """
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -371,8 +371,8 @@ class L1bProductInspectorPlots:
             return
         var_data = var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
         plt.figure(figsize=(10, 10))
         plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
@@ -550,8 +550,8 @@ class L1bProductInspectorPlots:
 
         var_data = z_var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
 
         x_title = '%s (index)' % z_var.dimensions[1]
         y_title = '%s (index)' % z_var.dimensions[0]
-- 
2.43.0


From 39db789348ae8f72654a019f60c4fa4f8ffc723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:46 +0000
Subject: [PATCH 47/50] fix: im_line shows nothing in a notebook when variable
 and indices are given

---
 dedop/ui/inspect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 9ebdc38..1ea624a 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -533,6 +533,8 @@ class L1bProductInspectorPlots:
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
                          zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
+            else:
+                self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
         else:
             if not z:
                 raise ValueError('z_name must be given')
-- 
2.43.0


From b4cfc2e45515fed602bd2ecc3322aa29c2a9d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:46 +0000
Subject: [PATCH 48/50] fix: im_line index sliders do not cover the initially
 shown variable

---
 dedop/ui/inspect.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 1ea624a..01a6efc 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -517,18 +517,24 @@ class L1bProductInspectorPlots:
                     value = z if z and z in valid_var_names else valid_var_names[0]
                     widget_var = widgets.Dropdown(options=valid_var_names, value=value, description='Var:')
 
-                    # noinspection PyUnusedLocal
-                    def on_widget_var_change(change):
-                        variable = self._inspector.dataset[widget_var.value]
-                        if xind is None:
-                            widget_xind.max = variable.shape[1] - 1
-                        if yind is None:
-                            widget_yind.max = variable.shape[0] - 1
-
-                    widget_var.observe(on_widget_var_change, names='value')
                 else:
                     widget_var = fixed(z)
 
+                # noinspection PyUnusedLocal
+                def on_widget_var_change(change):
+                    if widget_var.value not in self._inspector.dataset.variables:
+                        return
+                    shape = self._inspector.dataset[widget_var.value].shape
+                    if len(shape) != 2:
+                        return
+                    if xind is None:
+                        widget_xind.max = shape[1] - 1
+                    if yind is None:
+                        widget_yind.max = shape[0] - 1
+
+                on_widget_var_change(None)
+                widget_var.observe(on_widget_var_change, names='value')
+
                 # TODO (forman, 20160709): add sliders for zmin, zmax
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
-- 
2.43.0


From ed9f11746ebd255445dad461170e1cbc6fc2c827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:30 +0000
Subject: [PATCH 49/50] fix: comparison of waveforms is drawn with the limits
 of their difference

---
 dedop/ui/compare.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/dedop/ui/compare.py b/dedop/ui/compare.py
index 30fb38d..6e264ab 100644
--- a/dedop/ui/compare.py
+++ b/dedop/ui/compare.py
@@ -79,6 +79,8 @@ class L1bProductComparator:
         self._product_inspector_1 = product_inspector_1
         self._product_inspector_2 = product_inspector_2
         self._plot = L1bProductComparatorPlots(self, figure_writer)
+        self._waveforms_range = (min(product_inspector_1.waveform_range[0], product_inspector_2.waveform_range[0]),
+                                 max(product_inspector_1.waveform_range[1], product_inspector_2.waveform_range[1]))
         self._waveforms_delta = product_inspector_1.waveform - product_inspector_2.waveform
         self._waveforms_delta_range = self._waveforms_delta.min(), self._waveforms_delta.max()
 
@@ -117,6 +119,13 @@ class L1bProductComparator:
         """
         return self.p1.waveform, self.p2.waveform
 
+    @property
+    def waveforms_range(self) -> Tuple[float, float]:
+        """
+        Get the common range of both waveforms.
+        """
+        return self._waveforms_range
+
     @property
     def waveforms_delta(self) -> ndarray:
         """
@@ -227,8 +236,8 @@ class L1bProductComparatorPlots:
         :param color2: Color of the second histogram
         :param alpha: Alpha value for histograms
         """
-        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -290,8 +299,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms_delta-hist.png")
 
     def waveforms_scatter(self, vmin=None, vmax=None):
-        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform
@@ -310,8 +319,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms-scatter.png")
 
     def waveforms_hexbin(self, vmin=None, vmax=None, cmap='Blues', log=True):
-        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform.flatten()
-- 
2.43.0


From 1ccdf6ce03fedb51c61111bb6c1d97023bc1bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 50/50] fix: move a surface for focusing only where the track
 passes the target

---
 dedop/proc/sar/algorithms/surface_locations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index 57e2a31..6faf552 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -229,7 +229,8 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
             new_dist = self.focus_target_distance(new_pos)
 
             if len(surfaces) > 1 and not self.focus_found and \
-               new_dist - surfaces[-1].focus_target_distance > 0:
+               new_dist - surfaces[-1].focus_target_distance > 0 and \
+               surfaces[-1].focus_target_distance <= surfaces[-2].focus_target_distance:
                 self.focus_surface(surfaces[-1], surfaces[-2])
 
         return self.new_surf
-- 
2.43.0

