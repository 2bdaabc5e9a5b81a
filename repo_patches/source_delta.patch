From d012203461f9801157de90e253cf9ec4b7199b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 01/53] fix: klucher no longer divides by zero for Python
 scalar inputs at night

---
 pvlib/irradiance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 677cdba..9d8ee2a 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -798,8 +798,9 @@ def klucher(surface_tilt, surface_azimuth, dhi, ghi, solar_zenith,
     cos_tt = np.maximum(cos_tt, 0)  # GH 526
 
     # silence warning from 0 / 0
+    # np.divide so Python-scalar 0 / 0 yields nan instead of raising
     with np.errstate(invalid='ignore'):
-        F = 1 - ((dhi / ghi) ** 2)
+        F = 1 - (np.divide(dhi, ghi) ** 2)
 
     try:
         # fails with single point input
-- 
2.43.0


From 364d448a6db28f1bc38af61acef1179fa7d5a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 02/53] fix: clearsky_index accepts Python scalar ghi_clear of
 zero

---
 pvlib/irradiance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 9d8ee2a..f6aeafd 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -1789,7 +1789,9 @@ def clearsky_index(ghi, ghi_clear, max_clearsky_index=2.0):
     clearsky_index : numeric
         Clearsky index. [unitless]
     """
-    clearsky_index = ghi / ghi_clear
+    # np.divide so a Python-scalar ghi_clear=0 does not raise
+    with np.errstate(invalid='ignore', divide='ignore'):
+        clearsky_index = np.divide(ghi, ghi_clear)
     # set +inf, -inf, and nans to zero
     clearsky_index = np.where(~np.isfinite(clearsky_index), 0,
                               clearsky_index)
-- 
2.43.0


From 013da8907e2d2be93fe2662078c031b583f3a661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 03/53] fix: haurwitz no longer truncates to integers for an
 integer zenith Series

---
 pvlib/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index da9d197..c899a05 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -316,7 +316,7 @@ def haurwitz(apparent_zenith):
     '''
 
     cos_zenith = tools.cosd(apparent_zenith.values)
-    ghi_clear = np.zeros_like(apparent_zenith.values)
+    ghi_clear = np.zeros_like(apparent_zenith.values, dtype=float)
     cos_zen_gte_0 = cos_zenith > 0
     ghi_clear[cos_zen_gte_0] = (1098.0 * cos_zenith[cos_zen_gte_0] *
                                 np.exp(-0.059/cos_zenith[cos_zen_gte_0]))
-- 
2.43.0


From fd11f247a7514765e9e340fb8ba67411f4570a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 04/53] fix: spa_python honours atmos_refract=0 instead of
 using the default

---
 pvlib/solarposition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 4441ed0..88f42fb 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -361,7 +361,8 @@ def spa_python(time, latitude, longitude,
     elev = altitude
     pressure = pressure / 100  # pressure must be in millibars for calculation
 
-    atmos_refract = atmos_refract or 0.5667
+    if atmos_refract is None:
+        atmos_refract = 0.5667
 
     if not isinstance(time, pd.DatetimeIndex):
         try:
-- 
2.43.0


From 979e24fd0331a3129e88a9503150901101874bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 05/53] fix: sun_rise_set_transit_spa returns the requested
 local date near the date line

---
 pvlib/solarposition.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 88f42fb..2a3b595 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -472,6 +472,16 @@ def sun_rise_set_transit_spa(times, latitude, longitude, how='numpy',
     transit, sunrise, sunset = spa.transit_sunrise_sunset(
         unixtime, lat, lon, delta_t, numthreads)
 
+    # The transit found is the one on the UTC date with the same label. Close
+    # to the date line it can fall on an adjacent local date; if so, use the
+    # UTC date whose transit is on the requested local date.
+    local_transit = pd.to_datetime(transit*1e9, unit='ns', utc=True) \
+        .tz_convert(tzinfo).tz_localize(None)
+    day_shift = unixtime - _datetime_to_unixtime(local_transit.normalize())
+    if np.any(day_shift):
+        transit, sunrise, sunset = spa.transit_sunrise_sunset(
+            unixtime + day_shift, lat, lon, delta_t, numthreads)
+
     # arrays are in seconds since epoch format, need to conver to timestamps
     transit = pd.to_datetime(transit*1e9, unit='ns', utc=True).tz_convert(
         tzinfo).tolist()
-- 
2.43.0


From c47958da8e6396114b5f54e345906f697206df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 06/53] fix: hour angles and geometric sun events on days with
 a DST change

---
 pvlib/solarposition.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 2a3b595..41dab23 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1420,14 +1420,36 @@ def hour_angle(times, longitude, equation_of_time):
     if not times.tz:
         raise ValueError('times must be localized')
 
-    # hours - timezone = (times - normalized_times) - (naive_times - times)
-    tzs = np.array([ts.utcoffset().total_seconds() for ts in times]) / 3600
+    # hours since local midnight, and the UTC offset at local midnight (which
+    # differs from the offset at ``times`` if the clocks changed in between)
+    tzs = _local_midnight_utc_offset(times)
 
     hrs_minus_tzs = _times_to_hours_after_local_midnight(times) - tzs
 
     return 15. * (hrs_minus_tzs - 12.) + longitude + equation_of_time / 4.
 
 
+def _local_midnight(times):
+    """localized times of the midnight that starts each local date"""
+
+    # Some timezones have a DST shift at midnight:
+    #   11:59pm -> 1:00am - results in a nonexistent midnight
+    #   12:59am -> 12:00am - results in an ambiguous midnight
+    # We remove the timezone before normalizing for this reason.
+    naive_normalized_times = times.tz_localize(None).normalize()
+
+    # Use Pandas functionality for shifting nonexistent times forward
+    return naive_normalized_times.tz_localize(
+        times.tz, nonexistent='shift_forward', ambiguous='raise')
+
+
+def _local_midnight_utc_offset(times):
+    """UTC offset in hours in effect when each local date starts"""
+    utc_midnight = _local_midnight(times).tz_convert('UTC').tz_localize(None)
+    offset = times.tz_localize(None).normalize() - utc_midnight
+    return np.array(offset / pd.Timedelta('1h'))
+
+
 def _hour_angle_to_hours(times, hourangle, longitude, equation_of_time):
     """converts hour angles in degrees to hours as a numpy array"""
 
@@ -1435,7 +1457,7 @@ def _hour_angle_to_hours(times, hourangle, longitude, equation_of_time):
     if not times.tz:
         raise ValueError('times must be localized')
 
-    tzs = np.array([ts.utcoffset().total_seconds() for ts in times]) / 3600
+    tzs = _local_midnight_utc_offset(times)
     hours = (hourangle - longitude - equation_of_time / 4.) / 15. + 12. + tzs
     return np.asarray(hours)
 
@@ -1451,7 +1473,7 @@ def _local_times_from_hours_since_midnight(times, hours):
 
     # normalize local times to previous local midnight and add the hours until
     # sunrise, sunset, and transit
-    return times.normalize() + pd.to_timedelta(hours, unit='h')
+    return _local_midnight(times) + pd.to_timedelta(hours, unit='h')
 
 
 def _times_to_hours_after_local_midnight(times):
@@ -1461,17 +1483,7 @@ def _times_to_hours_after_local_midnight(times):
     if not times.tz:
         raise ValueError('times must be localized')
 
-    # Some timezones have a DST shift at midnight:
-    #   11:59pm -> 1:00am - results in a nonexistent midnight
-    #   12:59am -> 12:00am - results in an ambiguous midnight
-    # We remove the timezone before normalizing for this reason.
-    naive_normalized_times = times.tz_localize(None).normalize()
-
-    # Use Pandas functionality for shifting nonexistent times forward
-    normalized_times = naive_normalized_times.tz_localize(
-        times.tz, nonexistent='shift_forward', ambiguous='raise')
-
-    hrs = (times - normalized_times) / pd.Timedelta('1h')
+    hrs = (times - _local_midnight(times)) / pd.Timedelta('1h')
 
     # ensure array return instead of a version-dependent pandas <T>Index
     return np.array(hrs)
-- 
2.43.0


From ec4da75b1eb3fdf970a69ea58ee4ca6177696afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 07/53] fix: hour angle and geometric sun events are those of
 the local date near the date line

---
 pvlib/solarposition.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 41dab23..12e0328 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1426,7 +1426,12 @@ def hour_angle(times, longitude, equation_of_time):
 
     hrs_minus_tzs = _times_to_hours_after_local_midnight(times) - tzs
 
-    return 15. * (hrs_minus_tzs - 12.) + longitude + equation_of_time / 4.
+    # zero at the solar noon of the local date also where the clock is a day
+    # ahead or behind the longitude, e.g. close to the date line
+    days = np.round((longitude - 15. * tzs) / 360.)
+
+    return (15. * (hrs_minus_tzs - 12.) + longitude + equation_of_time / 4.
+            - 360. * days)
 
 
 def _local_midnight(times):
@@ -1547,6 +1552,11 @@ def sun_rise_set_transit_geometric(times, latitude, longitude, declination,
     sunset_hour = _hour_angle_to_hours(
         times, sunset_angle, longitude, equation_of_time)
     transit_hour = _hour_angle_to_hours(times, 0, longitude, equation_of_time)
+    # use the transit of the local date, also close to the date line
+    day_shift = 24 * (transit_hour // 24)
+    sunrise_hour = sunrise_hour - day_shift
+    sunset_hour = sunset_hour - day_shift
+    transit_hour = transit_hour - day_shift
     sunrise = _local_times_from_hours_since_midnight(times, sunrise_hour)
     sunset = _local_times_from_hours_since_midnight(times, sunset_hour)
     transit = _local_times_from_hours_since_midnight(times, transit_hour)
-- 
2.43.0


From fa06ae547bc396ce47505dfba2a157eee8aa9cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 08/53] fix: solar_zenith_analytical is not NaN when the sun is
 directly overhead

---
 pvlib/solarposition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 12e0328..f5d51c0 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1368,10 +1368,12 @@ def solar_zenith_analytical(latitude, hourangle, declination):
     declination_cooper69
     hour_angle
     """
-    return np.arccos(
+    cos_zenith = (
         np.cos(declination) * np.cos(latitude) * np.cos(hourangle) +
         np.sin(declination) * np.sin(latitude)
     )
+    # round-off can take the cosine beyond 1 when the sun is overhead
+    return np.arccos(np.clip(cos_zenith, -1, 1))
 
 
 def hour_angle(times, longitude, equation_of_time):
-- 
2.43.0


From aec069de0323fe22fbec967f169d05343f679935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 09/53] fix: solar_azimuth_analytical at solar noon with the
 sun to the north

---
 pvlib/solarposition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index f5d51c0..cdf19a5 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1319,6 +1319,9 @@ def solar_azimuth_analytical(latitude, hourangle, declination, zenith):
     with np.errstate(invalid='ignore'):
         sign_ha = np.sign(hourangle)
 
+    # at solar noon the azimuth is 0 if the sun is to the north (cos_azi is -1)
+    sign_ha = np.where(sign_ha == 0, -1.0, sign_ha)
+
     return sign_ha * np.arccos(cos_azi) + np.pi
 
 
-- 
2.43.0


From 761545d9ec03ff132f72c8bd794e6e852ee948f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 10/53] fix: solar_azimuth_analytical is not NaN when the sun
 is almost overhead at noon

---
 pvlib/solarposition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index cdf19a5..1c6c5d5 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1315,6 +1315,9 @@ def solar_azimuth_analytical(latitude, hourangle, declination, zenith):
     cos_azi = \
         np.where(np.isclose(cos_azi, -1.0, rtol=0.0, atol=1e-8), -1.0, cos_azi)
 
+    # round-off is larger than that when the sun is almost directly overhead
+    cos_azi = np.clip(cos_azi, -1.0, 1.0)
+
     # when NaN values occur in input, ignore and pass to output
     with np.errstate(invalid='ignore'):
         sign_ha = np.sign(hourangle)
-- 
2.43.0


From 9b642ee4471a035419f161f4a31e5105c77e26c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 11/53] fix: iam.physical is zero, not NaN, for angles of -90
 degrees and beyond with n=1

---
 pvlib/iam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iam.py b/pvlib/iam.py
index 9ba981c..e002d15 100644
--- a/pvlib/iam.py
+++ b/pvlib/iam.py
@@ -227,7 +227,7 @@ def physical(aoi, n=1.526, K=4.0, L=0.002, *, n_ar=None):
     # for light coming from behind the plane, none can enter the module
     # when n2 > 1, this is already the case
     if np.isclose(n2, 1).any():
-        iam = np.where(aoi >= 90, 0, iam)
+        iam = np.where(np.abs(aoi) >= 90, 0, iam)
         if isinstance(aoi, pd.Series):
             iam = pd.Series(iam, index=aoi.index)
 
-- 
2.43.0


From a75ec9f2013542e92ef6254bd8097efcc598c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 12/53] fix: iam.convert from the physical to the physical
 model no longer fails with UnboundLocalError

---
 pvlib/iam.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pvlib/iam.py b/pvlib/iam.py
index e002d15..49fbd89 100644
--- a/pvlib/iam.py
+++ b/pvlib/iam.py
@@ -1218,6 +1218,13 @@ def convert(source_name, source_params, target_name, weight=_sin_weight,
             residual_function, guess, bounds = \
                 _martin_ruiz_to_physical(aoi, source_iam, weight,
                                          source_params['a_r'])
+        else:  # source_name == "physical"
+            bounds = [(0, 0.08), (1, 2)]
+            guess = [0.002, 1+1e-08]
+
+            def residual_function(target_params):
+                L, n = target_params
+                return _residual(aoi, source_iam, target, [n, 4, L], weight)
 
     else:
         # otherwise, target model is ashrae or martin_ruiz, and scipy
-- 
2.43.0


From 11a1169321f96f194200d5639ca8da9beb11a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 13/53] fix: single-diode solvers: keep the open circuit root
 inside the search interval

With infinite shunt resistance the estimated open circuit voltage is the exact root, and rounding left it outside of the interval about half of the time: brentq raised, chandrupatla returned nan. chandrupatla also searched beyond NsVbi, where the recombination current diverges.
---
 pvlib/singlediode.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 974d59d..be9580e 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -19,6 +19,11 @@ NEWTON_DEFAULT_PARAMS = {
 # intrinsic voltage per cell junction for a:Si, CdTe, Mertens et al.
 VOLTAGE_BUILTIN = 0.9  # [V]
 
+# Widens search intervals that end at the estimated open circuit voltage. The
+# estimate is exact for infinite shunt resistance, where rounding could
+# otherwise leave the root just outside of the interval.
+VOC_BRACKET = 1 + 1e-9
+
 
 def estimate_voc(photocurrent, saturation_current, nNsVth):
     """
@@ -325,7 +330,7 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
         # arguments for possible array input
         def vd_from_brent(voc, v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                           breakdown_factor, breakdown_voltage, breakdown_exp):
-            return brentq(fv, 0.0, voc,
+            return brentq(fv, 0.0, voc * VOC_BRACKET,
                           args=(v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                                 breakdown_factor, breakdown_voltage,
                                 breakdown_exp),
@@ -352,9 +357,11 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
             raise ImportError(msg) from e
 
         voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
-        shape = _shape_of_max_size(voltage, voc_est)
+        # the current diverges at NsVbi
+        xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+        shape = _shape_of_max_size(voltage, xp)
         vlo = np.zeros(shape)
-        vhi = np.full(shape, voc_est)
+        vhi = np.full(shape, xp * VOC_BRACKET)
         bounds = (vlo, vhi)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
@@ -497,7 +504,7 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
         # arguments for possible array input
         def vd_from_brent(voc, i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                           breakdown_factor, breakdown_voltage, breakdown_exp):
-            return brentq(fi, 0.0, voc,
+            return brentq(fi, 0.0, voc * VOC_BRACKET,
                           args=(i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                                 breakdown_factor, breakdown_voltage,
                                 breakdown_exp),
@@ -523,9 +530,9 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
             )
             raise ImportError(msg) from e
 
-        shape = _shape_of_max_size(current, voc_est)
+        shape = _shape_of_max_size(current, xp)
         vlo = np.zeros(shape)
-        vhi = np.full(shape, voc_est)
+        vhi = np.full(shape, xp * VOC_BRACKET)
         bounds = (vlo, vhi)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
@@ -690,8 +697,8 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
             )
             raise ImportError(msg) from e
 
-        vlo = np.zeros_like(photocurrent)
-        vhi = np.full_like(photocurrent, voc_est)
+        vlo = np.zeros_like(xp)
+        vhi = xp
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
 
-- 
2.43.0


From ef06c35a69dfca06801e711af26b2761eb083f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 14/53] fix: i_from_v, v_from_i: accept length-one arrays with
 a scalar operating point

---
 pvlib/singlediode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index be9580e..8450680 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -725,7 +725,7 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
 
 def _shape_of_max_size(*args):
     return max(((np.size(a), np.shape(a)) for a in args),
-               key=lambda t: t[0])[1]
+               key=lambda t: (t[0], len(t[1])))[1]
 
 
 def _prepare_newton_inputs(x0, args, method_kwargs):
-- 
2.43.0


From 2ae285d0609212b515d5124fbf57bdf0b98c6337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 15/53] fix: singlediode lambertw: no nan maximum power point
 when v_oc is rounding noise

---
 pvlib/singlediode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 8450680..76c0a76 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -906,11 +906,11 @@ def _lambertw(photocurrent, saturation_current, resistance_series,
     # Compute open circuit voltage
     v_oc = _lambertw_v_from_i(0., **params)
 
-    # Set small elements <0 in v_oc to 0
+    # Set small elements in v_oc to 0
     if isinstance(v_oc, np.ndarray):
-        v_oc[(v_oc < 0) & (v_oc > -1e-12)] = 0.
+        v_oc[np.abs(v_oc) < 1e-12] = 0.
     elif isinstance(v_oc, (float, int)):
-        if v_oc < 0 and v_oc > -1e-12:
+        if np.abs(v_oc) < 1e-12:
             v_oc = 0.
 
     # Find the voltage, v_mp, where the power is maximized.
-- 
2.43.0


From 95df92ba13ac80a51ecf4fd626de110ca67e0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 16/53] fix: bishop88: gradients of the breakdown current

The derivative of (1 - vd/vbr) was taken as 1 instead of -1/vbr.
---
 pvlib/singlediode.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 76c0a76..2a9adf0 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -188,11 +188,14 @@ def bishop88(diode_voltage, photocurrent, saturation_current,
         brk_pwr_1 = np.power(brk_term, -breakdown_exp - 1)
         brk_pwr_2 = np.power(brk_term, -breakdown_exp - 2)
         brk_fctr = breakdown_factor * g_sh
-        grad_i_brk = brk_fctr * (brk_pwr + diode_voltage *
-                                 -breakdown_exp * brk_pwr_1)
-        grad2i_brk = (brk_fctr * -breakdown_exp        # noqa: W503
+        # derivative of brk_pwr is -breakdown_exp * brk_pwr_1 * grad_brk_term
+        grad_brk_term = -1.0 / breakdown_voltage
+        grad_i_brk = brk_fctr * (brk_pwr + diode_voltage * -breakdown_exp
+                                 * brk_pwr_1 * grad_brk_term)
+        grad2i_brk = (brk_fctr * -breakdown_exp * grad_brk_term
                       * (2 * brk_pwr_1 + diode_voltage   # noqa: W503
-                         * (-breakdown_exp - 1) * brk_pwr_2))  # noqa: W503
+                         * (-breakdown_exp - 1) * brk_pwr_2  # noqa: W503
+                         * grad_brk_term))  # noqa: W503
         grad_i = -g_diode - g_sh - grad_i_recomb - grad_i_brk  # di/dvd
         grad_v = 1.0 - grad_i * resistance_series  # dv/dvd
         # dp/dv = d(iv)/dv = v * di/dv + i
-- 
2.43.0


From cf375be567654c381e8a76bc2483c1a8adf8c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 17/53] fix: bishop88: no nan beyond breakdown_voltage when
 there is no breakdown current

---
 pvlib/singlediode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 2a9adf0..8034607 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -172,7 +172,9 @@ def bishop88(diode_voltage, photocurrent, saturation_current,
     v_star = diode_voltage / nNsVth  # non-dimensional diode voltage
     g_sh = 1.0 / resistance_shunt  # conductance
 
-    brk_term = 1 - diode_voltage / breakdown_voltage
+    # without breakdown current there is no limit on reverse voltage
+    is_brk = np.not_equal(breakdown_factor, 0)
+    brk_term = np.where(is_brk, 1 - diode_voltage / breakdown_voltage, 1.)
     brk_pwr = np.power(brk_term, -breakdown_exp)
     i_breakdown = breakdown_factor * diode_voltage * g_sh * brk_pwr
 
-- 
2.43.0


From 9c6b17c718878e40e7aa645ec5dd1d7f6169b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 18/53] fix: calcparams_desoto: scalar zero irradiance gives
 infinite shunt resistance

As for arrays; plain Python zero raised ZeroDivisionError.
---
 pvlib/pvsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index 02b16ed..c6933ce 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -1743,7 +1743,7 @@ def calcparams_desoto(effective_irradiance, temp_cell,
     # spectral_modifier = 1.0.
     # use errstate to silence divide by warning
     with np.errstate(divide='ignore'):
-        Rsh = R_sh_ref * (irrad_ref / effective_irradiance)
+        Rsh = R_sh_ref * np.divide(irrad_ref, effective_irradiance)
 
     Rs = R_s
 
-- 
2.43.0


From 1eb9e4f16ee3e4e02e8a4950eb7d2bcb58f9cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 19/53] fix: sapm: zero irradiance gives zero, not nan, maximum
 power

With C2 < 0 the two logarithmic terms of v_mp were inf - inf. Factored,
the quadratic term decides the limit.
---
 pvlib/pvsystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index c6933ce..0b9ca55 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -2385,8 +2385,8 @@ def sapm(effective_irradiance, temp_cell, module, *, temperature_ref=25,
 
     out['v_mp'] = np.maximum(0, (
         module['Vmpo'] +
-        module['C2'] * cells_in_series * delta * logEe +
-        module['C3'] * cells_in_series * ((delta * logEe) ** 2) +
+        cells_in_series * delta * logEe *
+        (module['C2'] + module['C3'] * delta * logEe) +
         Bvmpo*(temp_cell - temperature_ref)))
 
     out['p_mp'] = out['i_mp'] * out['v_mp']
-- 
2.43.0


From 6e8f8894fa113f41155d473b6a526bc27433d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 20/53] fix: sandia_multi: scalar zero DC power gives the night
 tare

As for arrays; plain Python zeros raised ZeroDivisionError.
---
 pvlib/inverter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index 622fb9b..5566d9a 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -195,7 +195,8 @@ def sandia_multi(v_dc, p_dc, inverter):
     power_ac = 0. * power_dc
 
     for vdc, pdc in zip(v_dc, p_dc):
-        power_ac += pdc / power_dc * _sandia_eff(vdc, power_dc, inverter)
+        power_ac += (np.divide(pdc, power_dc)
+                     * _sandia_eff(vdc, power_dc, inverter))
 
     return _sandia_limits(power_ac, power_dc, inverter['Paco'],
                           inverter['Pnt'], inverter['Pso'])
-- 
2.43.0


From 9884a7755bf2b0348df96b9ea1f5656e88c89733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 21/53] fix: noct_sam: cell temperature is air temperature
 without irradiance

With effective_irradiance given, zero irradiance returned nan (0/0), or
ZeroDivisionError for scalars.
---
 pvlib/temperature.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvlib/temperature.py b/pvlib/temperature.py
index 55222c0..bfd7ace 100644
--- a/pvlib/temperature.py
+++ b/pvlib/temperature.py
@@ -1012,7 +1012,10 @@ def noct_sam(poa_global, temp_air, wind_speed, noct, module_efficiency,
     if effective_irradiance is None:
         irr_ratio = 1.
     else:
-        irr_ratio = effective_irradiance / poa_global
+        # without irradiance there is no temperature rise for any ratio
+        no_irr = np.equal(poa_global, 0)
+        irr_ratio = np.where(no_irr, 1., effective_irradiance
+                             / np.where(no_irr, 1., poa_global))
 
     if array_height == 1:
         wind_adj = 0.51 * wind_speed
-- 
2.43.0


From e6f6242b0ac5f1db5e77d01918bafe7feb624b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 22/53] fix: sample interval of a day or more

Timedelta.seconds ignores whole days: prilliman raised ZeroDivisionError
for daily data instead of returning it unchanged with a warning.
---
 pvlib/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/tools.py b/pvlib/tools.py
index 1d9db70..f1e4c0d 100644
--- a/pvlib/tools.py
+++ b/pvlib/tools.py
@@ -433,7 +433,7 @@ def _get_sample_intervals(times, win_length):
     # determine if we can proceed
     if times.inferred_freq and len(np.unique(deltas)) == 1:
         sample_interval = times[1] - times[0]
-        sample_interval = sample_interval.seconds / 60  # in minutes
+        sample_interval = sample_interval.total_seconds() / 60  # minutes
         samples_per_window = int(win_length / sample_interval)
         return sample_interval, samples_per_window
     else:
-- 
2.43.0


From eca4f5cbb60e94b0217e6c2ebc9c8e7351de88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 23/53] fix: singlediode.batzelis: missing photocurrent gives
 missing output, not zero

---
 pvlib/singlediode.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 8034607..8f7586b 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -1041,10 +1041,10 @@ def batzelis(photocurrent, saturation_current, resistance_series,
 
     vmp = a * (w - 1) - Rs * imp
 
-    vmp = np.where(Iph > 0, vmp, 0)
-    voc = np.where(Iph > 0, voc, 0)
-    imp = np.where(Iph > 0, imp, 0)
-    isc = np.where(Iph > 0, isc, 0)
+    vmp = np.where(Iph <= 0, 0, vmp)
+    voc = np.where(Iph <= 0, 0, voc)
+    imp = np.where(Iph <= 0, 0, imp)
+    isc = np.where(Iph <= 0, 0, isc)
 
     out = {
         'p_mp': imp * vmp,
-- 
2.43.0


From 66a8df2a131813c708350f4d7786d3bc7f126a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 24/53] fix: adr inverter: scalar zero DC voltage gives the
 night tare

---
 pvlib/inverter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index 5566d9a..61f20b8 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -302,15 +302,16 @@ def adr(v_dc, p_dc, inverter, vtol=0.10):
     # zero voltage will lead to division by zero, but since power is
     # set to night time value later, these errors can be safely ignored
     with np.errstate(invalid='ignore', divide='ignore'):
+        vdc_inverse = np.divide(1., vdc)  # divide by 0, also when scalar
         poly = np.array([pdc**0,  # replace with np.ones_like?
                          pdc,
                          pdc**2,
                          vdc - 1,
                          pdc * (vdc - 1),
                          pdc**2 * (vdc - 1),
-                         1. / vdc - 1,  # divide by 0
-                         pdc * (1. / vdc - 1),  # invalid 0./0. --> nan
-                         pdc**2 * (1. / vdc - 1)])  # divide by 0
+                         vdc_inverse - 1,
+                         pdc * (vdc_inverse - 1),  # invalid 0./0. --> nan
+                         pdc**2 * (vdc_inverse - 1)])
     p_loss = np.dot(np.array(ce_list), poly)
     power_ac = p_nom * (pdc - p_loss)
     p_nt = -1 * np.absolute(p_nt)
-- 
2.43.0


From 716323ce5a323cae48a1a8cdd79a318fb7d11f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 25/53] fix: ModelChain: only 'adr' selects the ADR inverter,
 not parts of its name

---
 pvlib/modelchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index cf7a5bf..355b0d8 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -720,7 +720,7 @@ class ModelChain:
             model = model.lower()
             if model == 'sandia':
                 self._ac_model = self.sandia_inverter
-            elif model in 'adr':
+            elif model == 'adr':
                 self._ac_model = self.adr_inverter
             elif model == 'pvwatts':
                 self._ac_model = self.pvwatts_inverter
-- 
2.43.0


From ce2078ab37bc9fa5c29f0c1fb0651629a27debc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 26/53] fix: ModelChain: ADR inverter with weather given as
 one-element tuple

---
 pvlib/modelchain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 355b0d8..c92b506 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -759,8 +759,8 @@ class ModelChain:
     def adr_inverter(self):
         self.results.ac = self.system.get_ac(
             'adr',
-            self.results.dc['p_mp'],
-            v_dc=self.results.dc['v_mp']
+            _tuple_from_dfs(self.results.dc, 'p_mp'),
+            v_dc=_tuple_from_dfs(self.results.dc, 'v_mp')
         )
         return self
 
-- 
2.43.0


From 916dd7e9eb8cf826957bfc65ba0b9562e6498115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 27/53] fix: ModelChain: PVWatts inverter uses the maximum
 power of module models that return a table

---
 pvlib/modelchain.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index c92b506..ac8de12 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -765,7 +765,15 @@ class ModelChain:
         return self
 
     def pvwatts_inverter(self):
-        ac = self.system.get_ac('pvwatts', self.results.dc)
+        # results.dc is a Series of power, or a DataFrame including p_mp
+        if isinstance(self.results.dc, tuple):
+            p_dc = tuple(dc['p_mp'] if isinstance(dc, pd.DataFrame) else dc
+                         for dc in self.results.dc)
+        elif isinstance(self.results.dc, pd.DataFrame):
+            p_dc = self.results.dc['p_mp']
+        else:
+            p_dc = self.results.dc
+        ac = self.system.get_ac('pvwatts', p_dc)
         self.results.ac = ac.fillna(0)
         return self
 
-- 
2.43.0


From bf5cfa90a61892d46f4c950dfedae5ff5928cc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 28/53] fix: list gueymard2003 among the airmass models

get_relative_airmass supports it, but Location.get_airmass and ModelChain
refused it because APPARENT_ZENITH_MODELS left it out.
---
 pvlib/atmosphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/atmosphere.py b/pvlib/atmosphere.py
index f3b793e..761819c 100644
--- a/pvlib/atmosphere.py
+++ b/pvlib/atmosphere.py
@@ -8,7 +8,7 @@ import numpy as np
 import pandas as pd
 
 APPARENT_ZENITH_MODELS = ('simple', 'kasten1966', 'kastenyoung1989',
-                          'gueymard1993', 'pickering2002')
+                          'gueymard1993', 'gueymard2003', 'pickering2002')
 TRUE_ZENITH_MODELS = ('youngirvine1967', 'young1994')
 AIRMASS_MODELS = APPARENT_ZENITH_MODELS + TRUE_ZENITH_MODELS
 
-- 
2.43.0


From f73deb6baf436f56ddc5446810d8466a776833dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 29/53] fix: pyephem solar position with measured temperature
 or pressure

ModelChain passes the weather's temp_air and pressure columns on to the
solar position method; pyephem only took scalars and raised TypeError.
---
 pvlib/solarposition.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 1c6c5d5..a09b227 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -632,10 +632,10 @@ def pyephem(time, latitude, longitude, altitude=0., pressure=101325.,
         negative to west.
     altitude : float, default 0.0
         Height above sea level in meters. [m]
-    pressure : int or float, optional, default 101325.0
-        air pressure in Pascals.
-    temperature : int or float, optional, default 12.0
-        air temperature in degrees C.
+    pressure : numeric, optional, default 101325.0
+        air pressure in Pascals, scalar or one value per time.
+    temperature : numeric, optional, default 12.0
+        air temperature in degrees C, scalar or one value per time.
     horizon : string, optional, default '+0:00'
         arc degrees:arc minutes from geometrical horizon for sunrise and
         sunset, e.g., horizon='+0:00' to use sun center crossing the
@@ -667,15 +667,21 @@ def pyephem(time, latitude, longitude, altitude=0., pressure=101325.,
 
     sun_coords = pd.DataFrame(index=time)
 
+    # ephem takes the conditions one at a time
+    pressure = np.broadcast_to(pressure, len(time))
+    temperature = np.broadcast_to(temperature, len(time))
+
     obs, sun = _ephem_setup(latitude, longitude, altitude,
-                            pressure, temperature, horizon)
+                            101325., 12., horizon)
 
     # make and fill lists of the sun's altitude and azimuth
     # this is the pressure and temperature corrected apparent alt/az.
     alts = []
     azis = []
-    for thetime in time_utc:
+    for thetime, p, t in zip(time_utc, pressure, temperature):
         obs.date = ephem.Date(thetime)
+        obs.pressure = p / 100.  # convert to mBar
+        obs.temp = t
         sun.compute(obs)
         alts.append(sun.alt)
         azis.append(sun.az)
-- 
2.43.0


From 4763b7945f13b5f66d1420fbc455707ca8364639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 30/53] fix: give each Array its own copy of the inferred
 temperature parameters

Changing an array's temperature_model_parameters in place changed the
module-level table and with it every other array inferred from it.
---
 pvlib/temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/temperature.py b/pvlib/temperature.py
index bfd7ace..19e4dd9 100644
--- a/pvlib/temperature.py
+++ b/pvlib/temperature.py
@@ -45,7 +45,7 @@ Retrieve the open rack glass-polymer configuration for SAPM::
 def _temperature_model_params(model, parameter_set):
     try:
         params = TEMPERATURE_MODEL_PARAMETERS[model]
-        return params[parameter_set]
+        return params[parameter_set].copy()
     except KeyError:
         msg = ('{} is not a named set of parameters for the {} cell'
                ' temperature model.'
-- 
2.43.0


From 8d6c7e97e3d9debe781c66a4525edc98323208c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 31/53] fix: complete_irradiance after a run with a one-element
 tuple

The container of the previous run was kept, so a plain DataFrame given next
was wrapped in a tuple and complete_irradiance raised AttributeError.
---
 pvlib/modelchain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index ac8de12..3a0c2a7 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -1184,6 +1184,7 @@ class ModelChain:
         self._check_multiple_input(weather)
         # Don't use ModelChain._assign_weather() here because it adds
         # temperature and wind-speed columns which we do not need here.
+        self._configure_results(per_array_data=isinstance(weather, tuple))
         self.results.weather = _copy(weather)
         self._assign_times()
         self.results.solar_position = self.location.get_solarposition(
-- 
2.43.0


From 9f4fe2a0211a1426ad985fa3e14dbd167a39966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 32/53] fix: ants2d.get_irradiance returns the documented
 poa_global

---
 pvlib/bifacial/ants2d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/bifacial/ants2d.py b/pvlib/bifacial/ants2d.py
index 1aac065..95a62ff 100644
--- a/pvlib/bifacial/ants2d.py
+++ b/pvlib/bifacial/ants2d.py
@@ -598,6 +598,7 @@ def get_irradiance(tracker_rotation, axis_azimuth, solar_zenith, solar_azimuth,
     for old_key, new_key in colmap_back.items():
         poa_back[new_key] = poa_back.pop(old_key)
     out = {**poa_front, **poa_back}
+    out['poa_global'] = out['poa_front'] + out['poa_back']
 
     if row_segments == 1:
         for k, v in out.items():
-- 
2.43.0


From ca9c872f914f1efc1ed56096564dacaf460c833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 33/53] Revert "fix: ants2d.get_irradiance returns the
 documented poa_global"

This reverts commit 9f4fe2a0211a1426ad985fa3e14dbd167a39966a.
---
 pvlib/bifacial/ants2d.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pvlib/bifacial/ants2d.py b/pvlib/bifacial/ants2d.py
index 95a62ff..1aac065 100644
--- a/pvlib/bifacial/ants2d.py
+++ b/pvlib/bifacial/ants2d.py
@@ -598,7 +598,6 @@ def get_irradiance(tracker_rotation, axis_azimuth, solar_zenith, solar_azimuth,
     for old_key, new_key in colmap_back.items():
         poa_back[new_key] = poa_back.pop(old_key)
     out = {**poa_front, **poa_back}
-    out['poa_global'] = out['poa_front'] + out['poa_back']
 
     if row_segments == 1:
         for k, v in out.items():
-- 
2.43.0


From a828192a778e4237911e3d32d3d0c5d853ceb431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:52 +0000
Subject: [PATCH 34/53] fix: wvm returned nan for a single position

---
 pvlib/scaling.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pvlib/scaling.py b/pvlib/scaling.py
index 693d9f6..b537005 100644
--- a/pvlib/scaling.py
+++ b/pvlib/scaling.py
@@ -6,7 +6,6 @@ or other variables to account for temporal or spatial characteristics.
 import numpy as np
 import pandas as pd
 
-import scipy.optimize
 from scipy.spatial.distance import pdist
 
 
@@ -129,14 +128,8 @@ def _compute_vr(positions, cloud_speed, tmscales):
     pos = np.array(positions)
     dist = pdist(pos, 'euclidean')
 
-    # Find effective length of position vector, 'dist' is full pairwise
-    n_pairs = len(dist)
+    n_dist = len(pos)
 
-    def fn(x):
-        return np.abs((x ** 2 - x) / 2 - n_pairs)
-
-    n_dist = np.round(scipy.optimize.fmin(fn, np.sqrt(n_pairs), disp=False))
-    n_dist = n_dist.item()
     # Compute VR
     A = cloud_speed / 2  # Resultant fit for A from [2]
     vr = np.zeros(tmscales.shape)
-- 
2.43.0


From 95b7dd225ad93686e56a9c95f0130608d0bbc444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 35/53] fix: snow coverage raised TypeError for daily data

---
 pvlib/snow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/snow.py b/pvlib/snow.py
index b78a93a..3139fb3 100644
--- a/pvlib/snow.py
+++ b/pvlib/snow.py
@@ -60,8 +60,8 @@ def fully_covered_nrel(snowfall, snow_depth=None, threshold_snowfall=1.,
     # otherwise the first snowfall value is ignored
     freq = pd.infer_freq(snowfall.index)
     if freq is not None:
-        timedelta = pd.tseries.frequencies.to_offset(freq) / pd.Timedelta('1h')
-        hourly_snow_rate.iloc[0] = snowfall.iloc[0] / timedelta
+        # not all offsets (e.g. day) can be converted to a Timedelta
+        hourly_snow_rate.iloc[0] = snowfall.iloc[0] / timestep.iloc[1]
     else:  # can't infer frequency from index
         hourly_snow_rate.iloc[0] = 0  # replaces NaN
     covered = (hourly_snow_rate > threshold_snowfall)
-- 
2.43.0


From 1ba0ef99b1fe63750f41d72a23455f286438ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 36/53] fix: spectrl2 returned its module-level wavelength
 table, so writing to a result changed later calls

---
 pvlib/spectrum/spectrl2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/spectrum/spectrl2.py b/pvlib/spectrum/spectrl2.py
index af531ff..6921a56 100644
--- a/pvlib/spectrum/spectrl2.py
+++ b/pvlib/spectrum/spectrl2.py
@@ -384,7 +384,8 @@ def spectrl2(apparent_zenith, aoi, surface_tilt, ground_albedo,
     Iground = pvlib.irradiance.get_ground_diffuse(surface_tilt, ghi, albedo=rg)
 
     Itilt = Ibeam + Isky + Iground
-    wavelength_1d = wavelength.reshape(-1)  # only needs 1 dimension
+    # only needs 1 dimension; a copy, so that the table above is not exposed
+    wavelength_1d = wavelength.flatten()
     return {
         'wavelength': wavelength_1d,
         'dni_extra': spectrum_et_adj,
-- 
2.43.0


From 41221e470ada2d8e4ad7a8af540394a7daa6caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 37/53] fix: pyephem did not return for a missing temperature
 or pressure

---
 pvlib/solarposition.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index a09b227..e14b37a 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -680,10 +680,12 @@ def pyephem(time, latitude, longitude, altitude=0., pressure=101325.,
     azis = []
     for thetime, p, t in zip(time_utc, pressure, temperature):
         obs.date = ephem.Date(thetime)
-        obs.pressure = p / 100.  # convert to mBar
-        obs.temp = t
+        # ephem does not return when the pressure or temperature is missing
+        missing = np.isnan(p) or np.isnan(t)
+        obs.pressure = 0 if missing else p / 100.  # convert to mBar
+        obs.temp = 0 if missing else t
         sun.compute(obs)
-        alts.append(sun.alt)
+        alts.append(np.nan if missing else sun.alt)
         azis.append(sun.az)
 
     sun_coords['apparent_elevation'] = alts
@@ -691,6 +693,7 @@ def pyephem(time, latitude, longitude, altitude=0., pressure=101325.,
 
     # redo it for p=0 to get no atmosphere alt/az
     obs.pressure = 0
+    obs.temp = 0
     alts = []
     azis = []
     for thetime in time_utc:
-- 
2.43.0


From 37c26391b329699df516acd053f19aae6304ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 38/53] fix: inverter.pvwatts raised for a scalar power with
 several input limits

---
 pvlib/inverter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index 61f20b8..0e8a505 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -398,7 +398,7 @@ def pvwatts(pdc, pdc0, eta_inv_nom=0.96, eta_inv_ref=0.9637):
     zeta = pdc / pdc0
 
     # arrays to help avoid divide by 0 for scalar and array
-    eta = np.zeros_like(pdc, dtype=float)
+    eta = np.zeros_like(zeta, dtype=float)
     pdc_neq_0 = ~np.equal(pdc, 0)
 
     # eta < 0 if zeta < 0.006. power_ac is forced to be >= 0 below. GH 541
-- 
2.43.0


From 4529ed7db15f7400d56dc2b3edae96d76a33ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 39/53] fix: fit_sandia_simple raises when the knee has too few
 points to fit

---
 pvlib/ivtools/sde.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvlib/ivtools/sde.py b/pvlib/ivtools/sde.py
index 236e91e..4ded613 100644
--- a/pvlib/ivtools/sde.py
+++ b/pvlib/ivtools/sde.py
@@ -221,10 +221,14 @@ def _sandia_beta3_beta4(voltage, current, beta0, beta1, ilim, i_sc):
     # Select points where y > ilim * i_sc to regress log(y) onto x
     idx = (y > ilim * i_sc)
     result = np.linalg.lstsq(x[idx], np.log(y[idx]), rcond=None)
-    coef = result[0]
+    coef, _, rank, _ = result
     beta3 = coef[1].item()
     beta4 = coef[2].item()
-    if any(np.isnan([beta3, beta4])):
+    if rank < 3:
+        # too few independent points to determine the three coefficients
+        raise RuntimeError("Parameter extraction failed: too few points near "
+                           "open circuit to determine beta3 and beta4")
+    elif any(np.isnan([beta3, beta4])):
         raise RuntimeError("Parameter extraction failed: beta3={}, beta4={}"
                            .format(beta3, beta4))
     else:
-- 
2.43.0


From f41892ed5c450ac5ecd92a78cc4bbc716161ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:29 +0000
Subject: [PATCH 40/53] fix: read_tmy2 reads headers whose city name contains
 spaces

---
 pvlib/iotools/tmy.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pvlib/iotools/tmy.py b/pvlib/iotools/tmy.py
index 28d20ff..9a1f16c 100644
--- a/pvlib/iotools/tmy.py
+++ b/pvlib/iotools/tmy.py
@@ -393,17 +393,21 @@ def _parsemeta_tmy2(columns, line):
     """
     # Remove duplicated spaces, and read in each element
     rawmeta = " ".join(line.split()).split(" ")
-    meta = rawmeta[:3]  # take the first string entries
-    meta.append(int(rawmeta[3]))
+    # The city name may contain spaces, so the elements after it are counted
+    # from the end of the line
+    meta = [rawmeta[0], " ".join(rawmeta[1:-9]), rawmeta[-9]]
+    meta.append(int(rawmeta[-8]))
     # Convert to decimal notation with S negative
     longitude = (
-        float(rawmeta[5]) + float(rawmeta[6])/60) * (2*(rawmeta[4] == 'N') - 1)
+        float(rawmeta[-6]) + float(rawmeta[-5])/60
+    ) * (2*(rawmeta[-7] == 'N') - 1)
     # Convert to decimal notation with W negative
     latitude = (
-        float(rawmeta[8]) + float(rawmeta[9])/60) * (2*(rawmeta[7] == 'E') - 1)
+        float(rawmeta[-3]) + float(rawmeta[-2])/60
+    ) * (2*(rawmeta[-4] == 'E') - 1)
     meta.append(longitude)
     meta.append(latitude)
-    meta.append(float(rawmeta[10]))
+    meta.append(float(rawmeta[-1]))
 
     # Creates a dictionary of metadata
     meta_dict = dict(zip(columns.split(','), meta))
-- 
2.43.0


From 578afc08c06dc653e689c6b13cf58723356d5807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:29 +0000
Subject: [PATCH 41/53] fix: read_panond keeps values that contain an equals
 sign

---
 pvlib/iotools/panond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/panond.py b/pvlib/iotools/panond.py
index 2bc8363..da88f13 100644
--- a/pvlib/iotools/panond.py
+++ b/pvlib/iotools/panond.py
@@ -75,7 +75,7 @@ def _parse_panond(fbuf):
         indent_lvl_1 = (len(lines[i]) - len(lines[i].lstrip(' '))) // 2
         indent_lvl_2 = (len(lines[i + 1]) - len(lines[i + 1].lstrip(' '))) // 2
         # Split the line into key/value pair
-        line_data = lines[i].split('=')
+        line_data = lines[i].split('=', 1)
         key = line_data[0].strip()
         # Logical to make sure there is a value to extract
         if len(line_data) > 1:
-- 
2.43.0


From d8cb501327066b0b1eed629b77887a82718fc9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:29 +0000
Subject: [PATCH 42/53] fix: read_cams raises on a file without data section
 instead of looping forever

---
 pvlib/iotools/sodapro.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/sodapro.py b/pvlib/iotools/sodapro.py
index be11dbf..d3965cf 100644
--- a/pvlib/iotools/sodapro.py
+++ b/pvlib/iotools/sodapro.py
@@ -294,7 +294,12 @@ def read_cams(filename, integrated=False, label=None, map_variables=True):
 
         # Initial lines starting with # contain metadata
         while True:
-            line = fbuf.readline().rstrip('\n')
+            line = fbuf.readline()
+            if line == '':  # End of file has been reached
+                raise ValueError('No data section was detected. The file is '
+                                 'not a CAMS Radiation or McClear file or is '
+                                 'incomplete.')
+            line = line.rstrip('\n')
             if line.startswith('# Observation period'):
                 # The last line of the metadata section has the column names
                 names = line.lstrip('# ').split(';')
-- 
2.43.0


From cfb7472ebc5e23cf7ba8d244e1f6cb49985faa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:29 +0000
Subject: [PATCH 43/53] fix: read_surfrad closes its file when the file cannot
 be parsed

---
 pvlib/iotools/surfrad.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pvlib/iotools/surfrad.py b/pvlib/iotools/surfrad.py
index 948ec5e..1c94c45 100644
--- a/pvlib/iotools/surfrad.py
+++ b/pvlib/iotools/surfrad.py
@@ -136,22 +136,22 @@ def read_surfrad(filename, map_variables=True):
     else:
         file_buffer = open(str(filename), 'r')
 
-    # Read and parse the first two lines to build the metadata dict.
-    station = file_buffer.readline()
-    file_metadata = file_buffer.readline()
-
-    metadata_list = file_metadata.split()
-    metadata = {}
-    metadata['name'] = station.strip()
-    metadata['latitude'] = float(metadata_list[0])
-    metadata['longitude'] = float(metadata_list[1])
-    metadata['elevation'] = float(metadata_list[2])
-    metadata['surfrad_version'] = int(metadata_list[-1])
-    metadata['tz'] = 'UTC'
-
-    data = pd.read_csv(file_buffer, sep=r'\s+',
-                       header=None, names=SURFRAD_COLUMNS)
-    file_buffer.close()
+    with file_buffer:
+        # Read and parse the first two lines to build the metadata dict.
+        station = file_buffer.readline()
+        file_metadata = file_buffer.readline()
+
+        metadata_list = file_metadata.split()
+        metadata = {}
+        metadata['name'] = station.strip()
+        metadata['latitude'] = float(metadata_list[0])
+        metadata['longitude'] = float(metadata_list[1])
+        metadata['elevation'] = float(metadata_list[2])
+        metadata['surfrad_version'] = int(metadata_list[-1])
+        metadata['tz'] = 'UTC'
+
+        data = pd.read_csv(file_buffer, sep=r'\s+',
+                           header=None, names=SURFRAD_COLUMNS)
 
     data = _format_index(data)
     missing = data == -9999.9
-- 
2.43.0


From 9f2c5592f07f02944c2c18f675e895e051792259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:29 +0000
Subject: [PATCH 44/53] fix: get_surfrad honours map_variables=False

---
 pvlib/iotools/surfrad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/surfrad.py b/pvlib/iotools/surfrad.py
index 1c94c45..b001042 100644
--- a/pvlib/iotools/surfrad.py
+++ b/pvlib/iotools/surfrad.py
@@ -259,7 +259,7 @@ def get_surfrad(station, start, end, map_variables=True,
     for f in filenames:
         try:
             dfi, file_metadata = read_surfrad(url + f,
-                                              map_variables=VARIABLE_MAP)
+                                              map_variables=map_variables)
             dfs.append(dfi)
 
         except urllib.error.HTTPError:
-- 
2.43.0


From d368e62a19dd98632b86a63a6b8ae8fb3061c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 45/53] fix: read_srml keeps the label of an element whose
 number equals the year

---
 pvlib/iotools/srml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvlib/iotools/srml.py b/pvlib/iotools/srml.py
index c9b630e..608b388 100644
--- a/pvlib/iotools/srml.py
+++ b/pvlib/iotools/srml.py
@@ -67,6 +67,11 @@ def read_srml(filename, map_variables=True):
     # Drop day of year and time columns
     data = data[data.columns[2:]]
 
+    # The label of the time column is the year, which may equal a data element
+    # number (e.g. 2010), in which case pandas adds a suffix to the latter.
+    year = tsv_data.columns[1]
+    data = data.rename(columns={f'{year}.1': year})
+
     if map_variables:
         data = data.rename(columns=_map_columns)
 
-- 
2.43.0


From de8548f3137284f453450eb42cabaf3149eb5ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 46/53] fix: Meteonorm requests convert timezone-aware start
 and end to UTC

---
 pvlib/iotools/meteonorm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/meteonorm.py b/pvlib/iotools/meteonorm.py
index 61bf72b..48c7d9c 100644
--- a/pvlib/iotools/meteonorm.py
+++ b/pvlib/iotools/meteonorm.py
@@ -545,14 +545,16 @@ def _get_meteonorm(
     if (start is not None) & (start != 'now'):
         try:
             start = pd.Timestamp(start)
-            start = start.tz_localize("UTC") if start.tzinfo is None else start
+            start = (start.tz_localize("UTC") if start.tzinfo is None
+                     else start.tz_convert("UTC"))
             start = start.strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
     if (end is not None) & (end != 'now'):
         try:
             end = pd.Timestamp(end)
-            end = end.tz_localize("UTC") if end.tzinfo is None else end
+            end = (end.tz_localize("UTC") if end.tzinfo is None
+                   else end.tz_convert("UTC"))
             end = end.strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
-- 
2.43.0


From b99e4505b64bf9026f03c708985b7c4b586ce172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 47/53] fix: get_meteonorm_tmy sends the requested albedo

---
 pvlib/iotools/meteonorm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/iotools/meteonorm.py b/pvlib/iotools/meteonorm.py
index 48c7d9c..6798902 100644
--- a/pvlib/iotools/meteonorm.py
+++ b/pvlib/iotools/meteonorm.py
@@ -505,6 +505,7 @@ def get_meteonorm_tmy(
                         addendum=msg)
     additional_params = {
         "situation": terrain_situation,
+        "albedo": albedo,
         "turbidity": turbidity,
         "clear_sky_radiation_model": clear_sky_radiation_model,
         "random_seed": random_seed,
-- 
2.43.0


From f5f3bd813f8d7f0c81d28dd1f6ab2d00c7fbc89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:44 +0000
Subject: [PATCH 48/53] fix: read_pvgis_tmy reports a csv file that ends before
 its last record

---
 pvlib/iotools/pvgis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/pvgis.py b/pvlib/iotools/pvgis.py
index 61f3eff..75b781a 100644
--- a/pvlib/iotools/pvgis.py
+++ b/pvlib/iotools/pvgis.py
@@ -601,8 +601,10 @@ def _parse_pvgis_tmy_csv(src):
     # first there's a header row:
     #    time(UTC),T2m,RH,G(h),Gb(n),Gd(h),IR(h),WS10m,WD10m,SP
     headers = [h.decode('utf-8').strip() for h in src.readline().split(b',')]
-    data = pd.DataFrame(
-        [src.readline().split(b',') for _ in range(8760)], columns=headers)
+    lines = [src.readline() for _ in range(8760)]
+    if not lines[-1]:
+        raise ValueError('the PVGIS TMY file ends before its last record')
+    data = pd.DataFrame([line.split(b',') for line in lines], columns=headers)
     dtidx = data['time(UTC)'].apply(lambda dt: dt.decode('utf-8'))
     dtidx = pd.to_datetime(dtidx, format='%Y%m%d:%H%M', utc=True)
     data = data.drop('time(UTC)', axis=1)
-- 
2.43.0


From 13815c9f141bf1b1d5d6e244dd44ff77f29fab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:44 +0000
Subject: [PATCH 49/53] fix: NSRDB PSM4 errors without an 'errors' field raise
 HTTPError

---
 pvlib/iotools/psm4.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pvlib/iotools/psm4.py b/pvlib/iotools/psm4.py
index 8088993..529f3a8 100644
--- a/pvlib/iotools/psm4.py
+++ b/pvlib/iotools/psm4.py
@@ -209,7 +209,7 @@ def get_nsrdb_psm4_aggregated(latitude, longitude, api_key, email,
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
@@ -349,7 +349,7 @@ def get_nsrdb_psm4_tmy(latitude, longitude, api_key, email, year='tmy',
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
@@ -485,7 +485,7 @@ def get_nsrdb_psm4_conus(latitude, longitude, api_key, email, year,
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
@@ -624,7 +624,7 @@ def get_nsrdb_psm4_full_disc(latitude, longitude, api_key, email,
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
@@ -773,7 +773,7 @@ def get_nsrdb_psm4_polar(latitude, longitude, api_key, email,
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
@@ -922,7 +922,7 @@ def get_nsrdb_psm4_polar_tmy(latitude, longitude, api_key, email, year='tmy',
         # Forbidden, and then the error is in the content and there is no JSON
         try:
             errors = response.json()['errors']
-        except JSONDecodeError:
+        except (JSONDecodeError, KeyError):
             errors = response.content.decode('utf-8')
         raise requests.HTTPError(errors, response=response)
     # the CSV is in the response content as a UTF-8 bytestring
-- 
2.43.0


From 79116a0c4499c4f4f3decd0bcfebf91e366a07b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:38 +0000
Subject: [PATCH 50/53] fix: get_pvgis_tmy reports an incomplete epw response

---
 pvlib/iotools/pvgis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvlib/iotools/pvgis.py b/pvlib/iotools/pvgis.py
index 75b781a..d86ce3e 100644
--- a/pvlib/iotools/pvgis.py
+++ b/pvlib/iotools/pvgis.py
@@ -542,6 +542,9 @@ def get_pvgis_tmy(latitude, longitude, outputformat='json', usehorizon=True,
     elif outputformat == 'epw':
         with io.StringIO(res.content.decode('utf-8')) as src:
             data, meta = read_epw(src)
+        if len(data) < 8760:
+            # rolling an incomplete year would move records to other hours
+            raise ValueError('the PVGIS TMY response is incomplete')
     elif outputformat == 'basic':
         err_msg = ("outputformat='basic' is no longer supported by pvlib, "
                    "please use outputformat='csv' instead.")
-- 
2.43.0


From 71587a51f3e0571ab344a7d232d2f5fc401227c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 51/53] fix: simplified_solis with integer aerosol depth
 truncated the precipitable water

---
 pvlib/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index c899a05..e6750aa 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -483,7 +483,7 @@ def _calc_taud(w, aod700, p):
         w = np.array([w])
         aod700 = np.array([aod700])
     elif np.isscalar(w):
-        w = np.full_like(aod700, w)
+        w = np.full_like(aod700, w, dtype=float)
     elif np.isscalar(aod700):
         aod700 = np.full_like(w, aod700)
 
-- 
2.43.0


From 41c873b2b58aaa2f939f3718381201f2d1af3ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:06 +0000
Subject: [PATCH 52/53] fix: sr_to_qe and qe_to_sr convert each column of a
 DataFrame

---
 pvlib/spectrum/response.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pvlib/spectrum/response.py b/pvlib/spectrum/response.py
index 906c156..fb201ed 100644
--- a/pvlib/spectrum/response.py
+++ b/pvlib/spectrum/response.py
@@ -167,6 +167,9 @@ def sr_to_qe(sr, wavelength=None, normalize=False):
                 "'sr' must have an '.index' attribute"
                 + " or 'wavelength' must be provided"
             )
+    if isinstance(sr, pd.DataFrame):  # one row per wavelength
+        wavelength = np.broadcast_to(wavelength, sr.T.shape).T
+
     quantum_efficiency = (
         sr
         / wavelength
@@ -266,6 +269,9 @@ def qe_to_sr(qe, wavelength=None, normalize=False):
                 "'qe' must have an '.index' attribute"
                 + " or 'wavelength' must be provided"
             )
+    if isinstance(qe, pd.DataFrame):  # one row per wavelength
+        wavelength = np.broadcast_to(wavelength, qe.T.shape).T
+
     spectral_responsivity = (
         qe
         * wavelength
-- 
2.43.0


From 2dbcc6403864e24e73ffb8b90a59f6936bef54a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:03 +0000
Subject: [PATCH 53/53] fix: read_crn drops lines with null characters, as
 documented

---
 pvlib/iotools/crn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/crn.py b/pvlib/iotools/crn.py
index 90e1d6d..29cb09d 100644
--- a/pvlib/iotools/crn.py
+++ b/pvlib/iotools/crn.py
@@ -116,8 +116,10 @@ def read_crn(filename, map_variables=True):
     data = pd.read_fwf(filename, header=None, names=HEADERS, widths=WIDTHS,
                        dtype=str)
 
-    # drop empty (bad) lines
+    # drop empty (bad) lines, and lines with null characters
     data = data.dropna(axis=0, how='all')
+    has_null = data.apply(lambda col: col.str.contains('\x00', na=False))
+    data = data[~has_null.any(axis=1)]
 
     # can't set dtypes in read_fwf because int cols can't contain NaN, so
     # do it here instead
-- 
2.43.0

