From 81f1ca3d7531c14abee02409a1db0bf49b2c702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:26 +0000
Subject: [PATCH 001/110] fix: keep the linear trajectory right when an active
 state is set directly

---
 src/upstage_des/state_sharing.py | 13 +++++++++++++
 src/upstage_des/states.py        | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/upstage_des/state_sharing.py b/src/upstage_des/state_sharing.py
index 5867c2f..500c305 100644
--- a/src/upstage_des/state_sharing.py
+++ b/src/upstage_des/state_sharing.py
@@ -50,6 +50,19 @@ class SharedLinearChangingState(ActiveState[float]):
         )
         self.IGNORE_LOCK: bool = True
 
+    def __set__(self, instance: Actor, value: float) -> None:
+        """Set the state's value.
+
+        A value given while the state is active replaces the change up to now.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (float): The state's value
+        """
+        super().__set__(instance, value)
+        if self.name in instance._active_states:
+            instance._active_states[self.name]["_last_time"] = instance.env.now
+
     def _active(self, instance: Actor) -> float | None:
         """Return a value to set based on time or some other criteria.
 
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 1d70d72..2b4b0a5 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -477,6 +477,19 @@ class LinearChangingState(ActiveState[float]):
     >>>     )
     """
 
+    def __set__(self, instance: "Actor", value: float) -> None:
+        """Set the state's value.
+
+        A value given while the state is active replaces the change up to now.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (float): The state's value
+        """
+        super().__set__(instance, value)
+        if self.name in instance._active_states:
+            instance._active_states[self.name]["started_at"] = instance.env.now
+
     def _active(self, instance: "Actor") -> float | None:
         """Return a value to set based on time or some other criteria."""
         data = self.get_activity_data(instance)
-- 
2.43.0


From 64a9ed734f1af90a27fa1e1538bff5a07a655e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 002/110] fix: record the deactivation of a shared linear state

---
 src/upstage_des/state_sharing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_sharing.py b/src/upstage_des/state_sharing.py
index 500c305..45a48b1 100644
--- a/src/upstage_des/state_sharing.py
+++ b/src/upstage_des/state_sharing.py
@@ -138,4 +138,4 @@ class SharedLinearChangingState(ActiveState[float]):
         getattr(instance, self.name)
         if rate_tasks:
             return True
-        return False
+        return super().deactivate(instance, task)
-- 
2.43.0


From 76520ebcece6bb61b8bfe27dcfe4e92473ebfd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 003/110] fix: allow for clock precision when Cartesian motion
 reaches its end

---
 src/upstage_des/states.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 2b4b0a5..1d80480 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -10,6 +10,7 @@ from collections.abc import Callable, Iterable
 from copy import deepcopy
 from dataclasses import fields, replace
 from enum import Enum
+from math import ulp
 from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime_checkable
 
 from simpy import Container, Environment, Store
@@ -599,12 +600,15 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
                     [data["value"]] + waypoints,
                 )
 
-    def _get_index(self, path_data: dict[str, Any], time_elapsed: float) -> tuple[int, float]:
+    def _get_index(
+        self, path_data: dict[str, Any], time_elapsed: float, now: float = 0.0
+    ) -> tuple[int, float]:
         """Find out how far along waypoints the state is.
 
         Args:
             path_data (dict[str, Any]): Data about the movement path
             time_elapsed (float): Time spent moving
+            now (float): The clock time, which limits the precision of the elapsed time.
 
         Returns:
             int: index in waypoints
@@ -612,9 +616,10 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         """
         sum_t = 0.0
         t: float
+        tolerance = 1e-12 + 4 * (len(path_data["times"]) + 1) * ulp(now)
         for i, t in enumerate(path_data["times"]):
             sum_t += t
-            if time_elapsed <= (sum_t + 1e-12):
+            if time_elapsed <= (sum_t + tolerance):
                 return i, sum_t - t
         raise SimulationError(
             "CartesianLocation active state exceeded travel time: "
@@ -634,7 +639,7 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         current_time: float = data["now"]
         path_start_time: float = data["started_at"]
         elapsed = current_time - path_start_time
-        idx, _ = self._get_index(data["path_data"], elapsed)
+        idx, _ = self._get_index(data["path_data"], elapsed, current_time)
         return list(data["waypoints"][idx:])
 
     def _active(self, instance: "Actor") -> CartesianLocation | None:
@@ -667,12 +672,12 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
             return_value: CartesianLocation = data["value"]  # pragma: no cover
         else:
             # Get the location along the waypoint path
-            wypt_index, wypt_start = self._get_index(path_data, elapsed)
+            wypt_index, wypt_start = self._get_index(path_data, elapsed, current_time)
             time_along = elapsed - wypt_start
             path_time: float = path_data["times"][wypt_index]
             path_start: CartesianLocation = path_data["starts"][wypt_index]
             path_vector: list[float] = path_data["vectors"][wypt_index]
-            time_frac = time_along / path_time
+            time_frac = time_along / path_time if path_time > 0 else 1.0
             direction_amount = [time_frac * v for v in path_vector]
             new_point = _vector_add(path_start._as_array(), direction_amount)
 
-- 
2.43.0


From aedbaa8262801fe62d53f227b5e37f6f7f676abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 004/110] fix: use sin(sigma) in the longitude term of the
 WGS84 direct solution

---
 src/upstage_des/geography/wgs84.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 662b52c..306e983 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -237,7 +237,7 @@ class WGS84(WGS84Conversions):
         )
         C = f / 16 * cos_sq_alpha * (4 + f * (4 - 3 * cos_sq_alpha))
         L = lam - (1 - C) * f * sin_alpha * (
-            sigma + C * sin_alpha * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
+            sigma + C * sin_sigma * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
         )
         lambda_2 = lambda_1 + L
 
-- 
2.43.0


From 651075318999473dd39000b5f9b50b287c1eea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 005/110] fix: unpack the lat/lon pairs in ecef_linspace

---
 src/upstage_des/geography/spherical.py | 4 ++--
 src/upstage_des/geography/wgs84.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index efcd3e7..d76b8b2 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -450,10 +450,10 @@ class Spherical(SphericalConversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla = [(lat, lon, alt) for (lat, lon), alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 306e983..90f273c 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -354,10 +354,10 @@ class WGS84(WGS84Conversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla = [(lat, lon, alt) for (lat, lon), alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
-- 
2.43.0


From a44812f4f68edd0b5bedcba3127e2727e64a7fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 006/110] fix: make spherical geo_linspace work for every pair
 of points

---
 src/upstage_des/geography/spherical.py | 32 ++++++++------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index d76b8b2..e862ef2 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,9 +4,9 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan, atan2, cos, degrees, radians, sin, sqrt
+from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
 
-from upstage_des.math_utils import _vector_dot
+from upstage_des.math_utils import _vector_dot, _vector_norm
 from upstage_des.units import unit_convert
 
 from .conversions import SphericalConversions, spherical_radius
@@ -202,28 +202,14 @@ class Spherical(SphericalConversions):
         # We keep the earth radius to be 1 since we're interpolating along radians only
         v1 = cls._ll2cart(start[0], start[1])
         v2 = cls._ll2cart(end[0], end[1])
-        # solve for the parameter value that equals the end point
+        # the unit vector in the plane of the path, at a right angle to the start
         d = _vector_dot(v1, v2)
-        common = sqrt(-1 / ((d - 1) * (d + 1)))
-        alpha, beta = -d * common, common
-        a, _, _ = v1
-        d, _, _ = v2
-        lead = a * alpha + beta * d
-        sqrt_inner = a**2 * alpha**2 + a**2 + 2 * a * alpha * beta * d + beta**2 * d**2 - d**2
-        if sqrt_inner < 0:
-            raise ValueError("geo_linspace fails due to negative sqrt")
-        t = 2 * atan((lead + sqrt(sqrt_inner)) / (a + d))
-        W = tuple([alpha * x + beta * y for x, y in zip(v1, v2)])
-        assert len(W) == 3
-        W = (W[0], W[1], W[2])
-        # test that the t is right
-        ct, st = cos(t), sin(t)
-        end_pt = tuple([ct * x + st * w for x, w in zip(v1, W)])
-        assert len(end_pt) == 3
-        end_pt = (end_pt[0], end_pt[1], end_pt[2])
-        is_close = all(abs(a - b) <= 1e-8 for a, b in zip(end_pt, v2))
-        if not is_close:
-            t = 2 * atan((lead - sqrt(sqrt_inner)) / (a + d))
+        offset = [b - d * a for a, b in zip(v1, v2)]
+        sin_t = _vector_norm(offset)
+        if sin_t == 0.0 and d < 0:
+            raise ValueError("geo_linspace has no unique path between antipodal points")
+        W = tuple([o / sin_t if sin_t > 0 else 0.0 for o in offset])
+        t = atan2(sin_t, d)
 
         ts = [(t / num_segments) * i for i in range(0, num_segments + 1)]
         v_cos = [tuple(cos(t) * v for v in v1) for t in ts]
-- 
2.43.0


From b663802c349f5f15048be5cabaa282b5d8b4aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 007/110] fix: keep the sign of the along-track distance in
 cross_track_point

---
 src/upstage_des/geography/spherical.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index e862ef2..3892b94 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,7 +4,7 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
+from math import asin, atan2, cos, degrees, radians, sin, sqrt
 
 from upstage_des.math_utils import _vector_dot, _vector_norm
 from upstage_des.units import unit_convert
@@ -402,9 +402,11 @@ class Spherical(SphericalConversions):
         delta_1_3 = cls.distance(origin, point, units="m") / spherical_radius
         theta_1_3 = radians(cls.bearing(origin, point))
         theta_1_2 = radians(cls.bearing(origin, destination))
-        d = asin(sin(delta_1_3) * sin(theta_1_3 - theta_1_2))
 
-        dist_from_origin = acos(cos(delta_1_3) / cos(d)) * spherical_radius
+        # signed: the closest point may be behind the origin
+        dist_from_origin = (
+            atan2(sin(delta_1_3) * cos(theta_1_3 - theta_1_2), cos(delta_1_3)) * spherical_radius
+        )
         cross_track_point = cls.point_from_bearing_dist(
             origin,
             degrees(theta_1_2),
-- 
2.43.0


From 83dc0396e6f3641713b8b2a32f236418d5b32aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:28 +0000
Subject: [PATCH 008/110] fix: make the spherical direct solution work at and
 across the poles

---
 src/upstage_des/geography/spherical.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 3892b94..b4e9eb8 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -338,15 +338,14 @@ class Spherical(SphericalConversions):
         lat1 = radians(lat)
         lon1 = radians(lon)
 
-        lat2 = asin(
-            sin(lat1) * cos(dist / spherical_radius)
-            + cos(lat1) * sin(dist / spherical_radius) * cos(bearing)
-        )
-
-        lon2 = lon1 + atan2(
-            sin(bearing) * sin(dist / spherical_radius) * cos(lat1),
-            cos(dist / spherical_radius) - sin(lat1) * sin(lat2),
-        )
+        sin_d, cos_d = sin(dist / spherical_radius), cos(dist / spherical_radius)
+        # the new point, along the meridian of the start, to its east, and along the axis
+        x = cos(lat1) * cos_d - sin(lat1) * sin_d * cos(bearing)
+        y = sin_d * sin(bearing)
+        z = sin(lat1) * cos_d + cos(lat1) * sin_d * cos(bearing)
+
+        lat2 = atan2(z, sqrt(x**2 + y**2))
+        lon2 = lon1 + atan2(y, x)
 
         return degrees(lat2), degrees(lon2)
 
-- 
2.43.0


From e63d1ce9b3b75cd4998045e00445cc9d98fc285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 009/110] fix: let WGS84 ecef2lla convert points on the polar
 axis

---
 src/upstage_des/geography/conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/geography/conversions.py b/src/upstage_des/geography/conversions.py
index eb846cb..c62c189 100644
--- a/src/upstage_des/geography/conversions.py
+++ b/src/upstage_des/geography/conversions.py
@@ -114,9 +114,9 @@ class BaseConversions:
         s = (1 + c + sqrt(c * c + 2 * c)) ** (1 / 3)
         P = F / (3 * (s + 1 / s + 1) ** 2 * G * G)
         Q = sqrt(1 + 2 * e2 * e2 * P)
-        ro = -(e2 * P * r) / (1 + Q) + sqrt(
-            (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2
-        )
+        # zero at the poles, where rounding can make it negative
+        ro_2 = (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2
+        ro = -(e2 * P * r) / (1 + Q) + sqrt(max(0.0, ro_2))
         tmp = (r - e2 * ro) ** 2
         U = sqrt(tmp + Z2)
         V = sqrt(tmp + (1 - e2) * Z2)
-- 
2.43.0


From 4d917dffd63f53f8558521e2928aa6c28e68c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 010/110] fix: WGS84 distance between points that differ by
 rounding only

---
 src/upstage_des/geography/wgs84.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 90f273c..f09149f 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -111,6 +111,9 @@ class WGS84(WGS84Conversions):
             )
 
             cos_sigma = sin_u1 * sin_u2 + cos_u1 * cos_u2 * cos_lambda
+            if sin_sigma == 0.0 and cos_sigma > 0:
+                # the points are too close together to tell apart
+                return 0.0, 0.0
             sigma = atan2(sin_sigma, cos_sigma)
             sin_alpha = cos_u1 * cos_u2 * sin_lambda / sin_sigma
             cos_sq_alpha = 1 - sin_alpha**2
-- 
2.43.0


From f66242f338dfa7b3784311c4b5b12cee9443cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 011/110] fix: move along geodetic locations given in radians

---
 src/upstage_des/states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 1d80480..3798b7d 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -768,8 +768,8 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         starts: list[GeodeticLocation] = []
         for wypt in waypoints:
             dist, bear = STAGE.stage_model.distance_and_bearing(
-                (current.lat, current.lon),
-                (wypt.lat, wypt.lon),
+                current.latlon(),
+                wypt.latlon(),
                 units=STAGE.distance_units,
             )
             time = dist / speed
@@ -884,7 +884,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             path_start: GeodeticLocation = path_data["starts"][wypt_index]
             moved_distance = (time_along / path_time) * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
-                (path_start.lat, path_start.lon),
+                path_start.latlon(),
                 path_bearing,
                 moved_distance,
                 STAGE.distance_units,
-- 
2.43.0


From 47cde6c0ac0632ec17a672b3c1c094074b6a0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 012/110] fix: keep a geodetic position on its leg when read
 just past a short leg

---
 src/upstage_des/states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 3798b7d..dfb43f9 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -882,7 +882,9 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             path_dist: float = path_data["distances"][wypt_index]
             path_bearing: float = path_data["bearings"][wypt_index]
             path_start: GeodeticLocation = path_data["starts"][wypt_index]
-            moved_distance = (time_along / path_time) * path_dist
+            # a leg may be read slightly past its end (see _get_index)
+            time_frac = min(1.0, time_along / path_time) if path_time > 0 else 1.0
+            moved_distance = time_frac * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
                 path_start.latlon(),
                 path_bearing,
@@ -892,7 +894,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             # update the altitude
             waypoint: GeodeticLocation = data["waypoints"][wypt_index]
             alt_shift = waypoint.alt - path_start.alt
-            alt_shift *= time_along / path_time
+            alt_shift *= time_frac
             new_alt = path_start.alt + alt_shift
             # make the right kind of location object
             lat, lon = new_point[0], new_point[1]
-- 
2.43.0


From 7a2adbc0e1d0a2f9cfaef127d5792baf9a06e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 013/110] fix: end only the mimicry that the given task started

---
 src/upstage_des/actor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 9cb8282..0994626 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -516,6 +516,8 @@ Args:
             self_state (str): State name
             task (Task): Task it's running in.
         """
+        if self_state not in self._mimic_states_by_task[task]:
+            raise UpstageError(f"State {self_state} is not mimicking for task {task}")
         getattr(self, self_state)
         mimic_actor, mimic_state = self._mimic_states[self_state]
         state = self._state_defs[self_state]
@@ -531,7 +533,7 @@ Args:
         Args:
             task (Task): The task where states are mimicking others.
         """
-        for state in list(self._mimic_states):
+        for state in list(self._mimic_states_by_task[task]):
             self.deactivate_mimic_state(self_state=state, task=task)
 
     def _add_callback_to_state(
-- 
2.43.0


From eeb34c6472dddc8860d2787d8ec636c1f6b819ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:35 +0000
Subject: [PATCH 014/110] fix: keep a frozen state frozen when its value is
 None

---
 src/upstage_des/states.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index dfb43f9..048bed2 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -250,13 +250,12 @@ class State(Generic[ST]):
             instance (Actor): The actor holding the state
             value (Any): The state's value
         """
-        if self._frozen:
-            old_value = instance.__dict__.get(self.name, None)
-            if old_value is not None:
-                raise SimulationError(
-                    f"State '{self}' on '{instance}' has already been frozen "
-                    f"to value of {old_value}. It cannot be changed once set!"
-                )
+        if self._frozen and self.name in instance.__dict__:
+            old_value = instance.__dict__[self.name]
+            raise SimulationError(
+                f"State '{self}' on '{instance}' has already been frozen "
+                f"to value of {old_value}. It cannot be changed once set!"
+            )
 
         self._type_check(value, throw=True)
 
-- 
2.43.0


From 1f9c78fa75ff24cef0a3033611e3e85ddf800331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 015/110] fix: give each actor its own instance of a recording
 class

---
 src/upstage_des/actor.py  |  1 +
 src/upstage_des/states.py | 14 ++++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 0994626..b967e64 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -146,6 +146,7 @@ class Actor(SettableEnv, NamedUpstageEntity):
         self._debug_log: list[tuple[float | int, str]] = []
 
         self._state_histories: dict[str, list[tuple[float, Any]]] = {}
+        self._state_recorders: dict[str, Any] = {}
 
         # Task Network Nucleus hook-ins
         self._state_listener: TaskNetworkNucleus | None = None
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 048bed2..60b0cb9 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -152,15 +152,12 @@ class State(Generic[ST]):
         self._record_duplicates = record_duplicates
         self._change_callbacks: dict[Any, CALLBACK_FUNC] = {}
         self._allow_none_default = allow_none_default
-        self._recording_functions: list[tuple[RECORD_FUNC, str]] = []
+        self._recording_functions: list[RECORD_TUPLES] = []
         if recording_functions is not None:
             for thing, name in recording_functions:
                 if isinstance(thing, type):
-                    use = thing()
-                    assert isinstance(use, RecordClass)
-                    self._recording_functions.append((use, name))
-                else:
-                    self._recording_functions.append((thing, name))
+                    assert issubclass(thing, RecordClass)
+                self._recording_functions.append((thing, name))
 
         self._types: tuple[type, ...]
 
@@ -174,6 +171,11 @@ class State(Generic[ST]):
 
     def _do_record_funcs(self, instance: "Actor", now: float, value: ST) -> None:
         for func, name in self._recording_functions:
+            if isinstance(func, type):
+                # Recording classes hold data, so each actor gets its own.
+                if name not in instance._state_recorders:
+                    instance._state_recorders[name] = func()
+                func = instance._state_recorders[name]
             result = func(now, value)
             new_append = (now, result)
             if name not in instance._state_histories:
-- 
2.43.0


From 64fe71a2ea4a777a3385fb6cad3e47589d2c5f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 016/110] fix: copy the results of recording functions into the
 history

---
 src/upstage_des/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 60b0cb9..a23b0b2 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -176,7 +176,7 @@ class State(Generic[ST]):
                 if name not in instance._state_recorders:
                     instance._state_recorders[name] = func()
                 func = instance._state_recorders[name]
-            result = func(now, value)
+            result = deepcopy(func(now, value))
             new_append = (now, result)
             if name not in instance._state_histories:
                 instance._state_histories[name] = [new_append]
-- 
2.43.0


From 10a55a2b6dd98284a31f3c9c9c97274b250634b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 017/110] fix: check a dictionary state's value before storing
 it

---
 src/upstage_des/state_proxies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index fb6304c..7a0409e 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -27,9 +27,9 @@ class _DictionaryProxy(Generic[VTD]):
         self._wrapped = wrapped
 
     def __setitem__(self, key: str, value: VTD) -> None:
-        self._wrapped[key] = value
         if not self.descriptor._type_check(value, throw=False):
             raise TypeError(f"Bad type for dictionary: {key}: {value}")
+        self._wrapped[key] = value
         self.descriptor._record_state(self.instance, key, all=False)
 
     def setdefault(self, key: str, value: VTD) -> VTD:
-- 
2.43.0


From c5ac6cb38d2d91cff2c3b241b2c5627f9e4c0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:27 +0000
Subject: [PATCH 018/110] fix: let key/value states record duplicates when
 asked to

---
 src/upstage_des/states.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index a23b0b2..6c57c11 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1209,18 +1209,17 @@ class _KeyValueBase(State):
         record_duplicates: bool = False,
         recording_functions: list[RECORD_TUPLES] | None = None,
     ) -> None:
-        # Frozen, recording, and record duplicates are set so
-        # that the overall state's value (a dictionary) is
-        # never touched, and only its members are accessed.
+        # Frozen and recording are set so that the overall
+        # state's value (a dictionary) is never touched, and
+        # only its members are accessed.
         super().__init__(
             frozen=True,
             valid_types=valid_types,
             recording=False,
-            record_duplicates=False,
+            record_duplicates=record_duplicates,
             recording_functions=recording_functions,
         )
         self._record_indiv = recording
-        self._record_indiv_dupe = record_duplicates
 
     def _record_single(self, instance: "Actor", time: float, key: str, value: Any) -> None:
         name = f"{self.name}.{key}"
-- 
2.43.0


From d94617ccb15f5e31a9bba35d20021485f94eb82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 019/110] fix: type check dataclass state fields that are
 inherited or have generic or string hints

---
 src/upstage_des/state_proxies.py | 44 +++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index 7a0409e..37683f4 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -2,7 +2,18 @@
 
 from collections.abc import ItemsView, Iterable, KeysView, ValuesView
 from dataclasses import is_dataclass
-from typing import TYPE_CHECKING, Any, Generic, TypeVar, cast
+from types import UnionType
+from typing import (
+    TYPE_CHECKING,
+    Any,
+    Generic,
+    TypeVar,
+    Union,
+    cast,
+    get_args,
+    get_origin,
+    get_type_hints,
+)
 
 VTD = TypeVar("VTD")
 TDC = TypeVar("TDC")
@@ -13,6 +24,25 @@ if TYPE_CHECKING:
     from .states import _KeyValueBase  # pragma: no cover
 
 
+def _matches_hint(value: Any, hint: Any) -> bool:
+    """Check a value against a type hint, without looking inside of it.
+
+    Args:
+        value (Any): The value.
+        hint (Any): A type or a type hint.
+
+    Returns:
+        bool: If the value matches. Hints that can't be checked always match.
+    """
+    origin = get_origin(hint)
+    if origin in (Union, UnionType):
+        return any(_matches_hint(value, h) for h in get_args(hint))
+    try:
+        return isinstance(value, type(None) if hint is None else origin or hint)
+    except TypeError:
+        return True
+
+
 class _DictionaryProxy(Generic[VTD]):
     """An in-between way to have dictionary-like access on descriptors."""
 
@@ -107,8 +137,16 @@ class _DataclassProxy(Generic[TDC]):
         return self._wrapped.__dataclass_fields__
 
     def _typecheck(self, name: str, value: Any) -> None:
-        field_type = self._wrapped.__annotations__[name]
-        if not isinstance(value, field_type):
+        dataclass_fields = self._wrapped.__dataclass_fields__
+        if name not in dataclass_fields:
+            return
+        field_type = dataclass_fields[name].type
+        if isinstance(field_type, str):
+            try:
+                field_type = get_type_hints(type(self._wrapped))[name]
+            except NameError:
+                return
+        if not _matches_hint(value, field_type):
             raise TypeError(
                 f"Dataclass value {value} for field {name} doesn't match type: {field_type}."
             )
-- 
2.43.0


From 6a2df23b4e5e8f87465ba98e7c251403faa33e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:45 +0000
Subject: [PATCH 020/110] fix: clone actors whose resource states were given as
 resource objects

---
 src/upstage_des/states.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 6c57c11..e6cf8b3 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -10,6 +10,7 @@ from collections.abc import Callable, Iterable
 from copy import deepcopy
 from dataclasses import fields, replace
 from enum import Enum
+from inspect import signature
 from math import ulp
 from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime_checkable
 
@@ -937,6 +938,30 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
 T = TypeVar("T", bound=Store | Container)
 
 
+def _copy_resource(env: Any, resource: Any, kwargs: dict[str, Any] | None = None) -> Any:
+    """Make a new store or container with the same contents as another.
+
+    Args:
+        env (Any): The environment for the new resource.
+        resource (Any): The store or container to copy.
+        kwargs (dict[str, Any] | None, optional): Inputs the resource was created with.
+            Taken from the resource's attributes if not known. Defaults to None.
+
+    Returns:
+        Any: The copied store or container.
+    """
+    if kwargs is None:
+        names = [n for n in signature(type(resource)).parameters if n not in ("env", "init")]
+        kwargs = {n: getattr(resource, n) for n in names if hasattr(resource, n)}
+    new = type(resource)(env, **kwargs)
+    if isinstance(resource, Store):
+        new.items = list(resource.items)
+    if isinstance(resource, Container):
+        # This is a particularity of simpy containers
+        new._level = float(resource.level)
+    return new
+
+
 class ResourceState(State, Generic[T]):
     """A State class for States that are meant to be Stores or Containers.
 
@@ -1100,15 +1125,8 @@ class ResourceState(State, Generic[T]):
         Returns:
             T: The copied store or container
         """
-        base_class = type(copy)
-        memory: dict[str, Any] = instance.__dict__[f"_memory_for_{self.name}"]
-        new = base_class(instance.env, **memory)  # type: ignore [arg-type]
-        if isinstance(copy, Store) and isinstance(new, Store):
-            new.items = list(copy.items)
-        if isinstance(copy, Container) and isinstance(new, Container):
-            # This is a particularity of simpy containers
-            new._level = float(copy.level)
-        return cast(T, new)
+        memory: dict[str, Any] | None = instance.__dict__.get(f"_memory_for_{self.name}")
+        return cast(T, _copy_resource(instance.env, copy, memory))
 
 
 class CommunicationStore(ResourceState[Store]):
-- 
2.43.0


From 3e4b014ce90c0cee212710f005853c68e2268da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:47 +0000
Subject: [PATCH 021/110] fix: copy the resources of a multi-store state when
 cloning an actor

---
 src/upstage_des/states.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index e6cf8b3..e561dc1 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1560,6 +1560,10 @@ class MultiStoreState(DictionaryState[T]):
 
         super().__set__(instance, use)
 
+    def _make_clone(self, instance: "Actor") -> dict[str, T]:
+        resources = instance.__dict__[self.name]
+        return {k: _copy_resource(instance.env, v) for k, v in resources.items()}
+
     def has_default(self) -> bool:
         # Force the state to be defined.
         return False
-- 
2.43.0


From 193627a0bce8e46bf97eedfbfbbbae4895c45433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:49 +0000
Subject: [PATCH 022/110] fix: leave the input of a communication store
 unchanged

---
 src/upstage_des/states.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index e561dc1..0c68c2c 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1195,6 +1195,7 @@ class CommunicationStore(ResourceState[Store]):
         # See if the instance has any specific mode data to find.
         modes: str | list[str] | None = self._modes
         if isinstance(value, dict) and "modes" in value:
+            value = dict(value)
             modes = value.pop("modes")
         super().__set__(instance, value)
         if modes is None:
-- 
2.43.0


From c1cef4e2e02b5f2bf7fd5f43652065175e15aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:51 +0000
Subject: [PATCH 023/110] fix: keep the modes of communication stores when
 cloning an actor

---
 src/upstage_des/states.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 0c68c2c..a608e4c 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1197,6 +1197,8 @@ class CommunicationStore(ResourceState[Store]):
         if isinstance(value, dict) and "modes" in value:
             value = dict(value)
             modes = value.pop("modes")
+            # A clone's store is already made, and comes with its modes.
+            value = value.pop("_store", value)
         super().__set__(instance, value)
         if modes is None:
             raise SimulationError(
@@ -1209,6 +1211,10 @@ class CommunicationStore(ResourceState[Store]):
             raise SimulationError("CommunicationsStore modes should be a list of strings.")
         instance.__dict__[self._modename] = set(modes)
 
+    def _make_clone(self, instance: "Actor", copy: Store) -> Any:
+        modes = list(instance.__dict__[self._modename])
+        return {"modes": modes, "_store": super()._make_clone(instance, copy)}
+
 
 class _KeyValueBase(State):
     """A base state for holding key/value pairs.
-- 
2.43.0


From 4f23085d05d87b6cc794a12a83679deb3493dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:47 +0000
Subject: [PATCH 024/110] fix: refuse communication modes that are not strings

---
 src/upstage_des/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index a608e4c..865bf41 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1207,7 +1207,7 @@ class CommunicationStore(ResourceState[Store]):
             )
         if isinstance(modes, str):
             modes = [modes]
-        if not isinstance(modes, list) and not all(isinstance(x, str) for x in modes):
+        if not isinstance(modes, Iterable) or not all(isinstance(x, str) for x in modes):
             raise SimulationError("CommunicationsStore modes should be a list of strings.")
         instance.__dict__[self._modename] = set(modes)
 
-- 
2.43.0


From 8e83d8fc533a9439b5a7245c0276902ce8c34339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:59 +0000
Subject: [PATCH 025/110] fix: keep the payload of an event when a second
 succeed is refused

---
 src/upstage_des/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index f345f1e..6b597de 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -824,7 +824,7 @@ class Event(BaseEvent):
         Args:
             **kwargs (Any): key:values to store as payload.
         """
-        if self.is_complete():
+        if self._event.triggered:
             raise SimulationError("Event has already completed")
         self._payload = kwargs
         self._event.succeed()
-- 
2.43.0


From 64b457fead6716a2b9a0d32236fa94a40be4aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 026/110] fix: give back what a cancelled request was granted
 but never received

---
 src/upstage_des/events.py | 42 ++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 6b597de..c71be57 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -274,14 +274,23 @@ class BaseRequestEvent(BaseEvent):
         """
         super().__init__(rehearsal_time_to_complete=rehearsal_time_to_complete)
         self._request_event: SIM_REQ_EVTS | None = None
+        self._given_back: bool = False
+
+    def _give_back(self) -> None:
+        """Undo a request that was granted before anyone could receive it."""
 
     def cancel(self) -> None:
-        """Cancel the Request."""
-        if self._request_event is None:
+        """Cancel the Request.
+
+        A request that is granted, but that has not yet been received by what was
+        waiting for it, is given back.
+        """
+        if self._request_event is None or self._given_back:
             return
-        if not self.is_complete():
+        if not self._request_event.triggered:
             self._request_event.cancel()
-        # TODO: Do we put it back?
+        elif not self.is_complete():
+            self._give_back()
 
     def is_complete(self) -> bool:
         """Test if the request is finished.
@@ -297,7 +306,7 @@ class BaseRequestEvent(BaseEvent):
                 )
             return self.done_rehearsing
         assert self._request_event is not None
-        return self._request_event.processed
+        return self._request_event.processed and not self._given_back
 
 
 class Put(BaseRequestEvent):
@@ -594,6 +603,15 @@ class Get(BaseRequestEvent):
             )
         return self._request_event
 
+    def _give_back(self) -> None:
+        """Put back what was retrieved but never received."""
+        assert self._request_event is not None
+        self._given_back = True
+        if self.__is_store:
+            self.get_location.put(self._request_event.value)
+        else:
+            self.get_location.put(self._request_event.amount)
+
     def get_value(self) -> tyAny:
         """Get the value returned when the request is complete.
 
@@ -603,7 +621,11 @@ class Get(BaseRequestEvent):
         if self.__is_store:
             if self.rehearsing and self.done_rehearsing:
                 return PLANNING_FACTOR_OBJECT
-            if self._request_event is not None and self._request_event.value is not None:
+            if (
+                self._request_event is not None
+                and not self._given_back
+                and self._request_event.value is not None
+            ):
                 return self._request_event.value
             else:
                 raise SimulationError("Requested item from an unfinished Get request.")
@@ -686,6 +708,12 @@ class ResourceHold(BaseRequestEvent):
             return 0.0
         raise UpstageError(f"Resource request stage is wrong: {self._stage}")
 
+    def _give_back(self) -> None:
+        """Release a resource that was granted but never received."""
+        if isinstance(self._request_event, Request):
+            self._given_back = True
+            self.resource.release(self._request_event)
+
     def as_event(self) -> Request | Release:
         """Create the simpy event for the right state of Resource usage.
 
@@ -699,7 +727,7 @@ class ResourceHold(BaseRequestEvent):
             self._stage = "release"
             return self._request_event
         elif self._stage == "release":
-            if not self._request or not self._request.processed:
+            if not self._request or not self._request.processed or self._given_back:
                 raise SimulationError(
                     "Resource release requested when the "
                     "resource hasn't been given. Did you cancel?"
-- 
2.43.0


From ad4da8b2832b29c70e4f60b63c1d831ffcb2ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 027/110] fix: cancel any/all events that have already been
 triggered

---
 src/upstage_des/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index c71be57..546ed85 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -435,7 +435,8 @@ class MultiEvent(BaseEvent):
         if self._simpy_event is None:
             raise UpstageError("Can't cancel a nonexistent event.")
         self._simpy_event.defused = True
-        self._simpy_event.fail(Exception("defused"))
+        if not self._simpy_event.triggered:
+            self._simpy_event.fail(Exception("defused"))
         for event in self.events:
             if isinstance(event, BaseEvent):
                 try:
-- 
2.43.0


From 170ef98249d7a045b3ac74a7ad5cca23f032272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 028/110] fix: allow cancelling a request that is already
 cancelled

---
 src/upstage_des/events.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 546ed85..af56bff 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -274,7 +274,7 @@ class BaseRequestEvent(BaseEvent):
         """
         super().__init__(rehearsal_time_to_complete=rehearsal_time_to_complete)
         self._request_event: SIM_REQ_EVTS | None = None
-        self._given_back: bool = False
+        self._withdrawn: bool = False
 
     def _give_back(self) -> None:
         """Undo a request that was granted before anyone could receive it."""
@@ -285,9 +285,10 @@ class BaseRequestEvent(BaseEvent):
         A request that is granted, but that has not yet been received by what was
         waiting for it, is given back.
         """
-        if self._request_event is None or self._given_back:
+        if self._request_event is None or self._withdrawn:
             return
         if not self._request_event.triggered:
+            self._withdrawn = True
             self._request_event.cancel()
         elif not self.is_complete():
             self._give_back()
@@ -306,7 +307,7 @@ class BaseRequestEvent(BaseEvent):
                 )
             return self.done_rehearsing
         assert self._request_event is not None
-        return self._request_event.processed and not self._given_back
+        return self._request_event.processed and not self._withdrawn
 
 
 class Put(BaseRequestEvent):
@@ -607,7 +608,7 @@ class Get(BaseRequestEvent):
     def _give_back(self) -> None:
         """Put back what was retrieved but never received."""
         assert self._request_event is not None
-        self._given_back = True
+        self._withdrawn = True
         if self.__is_store:
             self.get_location.put(self._request_event.value)
         else:
@@ -624,7 +625,7 @@ class Get(BaseRequestEvent):
                 return PLANNING_FACTOR_OBJECT
             if (
                 self._request_event is not None
-                and not self._given_back
+                and not self._withdrawn
                 and self._request_event.value is not None
             ):
                 return self._request_event.value
@@ -712,7 +713,7 @@ class ResourceHold(BaseRequestEvent):
     def _give_back(self) -> None:
         """Release a resource that was granted but never received."""
         if isinstance(self._request_event, Request):
-            self._given_back = True
+            self._withdrawn = True
             self.resource.release(self._request_event)
 
     def as_event(self) -> Request | Release:
@@ -728,7 +729,7 @@ class ResourceHold(BaseRequestEvent):
             self._stage = "release"
             return self._request_event
         elif self._stage == "release":
-            if not self._request or not self._request.processed or self._given_back:
+            if not self._request or not self._request.processed or self._withdrawn:
                 raise SimulationError(
                     "Resource release requested when the "
                     "resource hasn't been given. Did you cancel?"
-- 
2.43.0


From 125b24de8e544152527e5a682a7a7d52e12cb37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:39 +0000
Subject: [PATCH 029/110] fix: let a task be interrupted when its event has
 already happened

---
 src/upstage_des/events.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index af56bff..7db9dfd 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -626,6 +626,7 @@ class Get(BaseRequestEvent):
             if (
                 self._request_event is not None
                 and not self._withdrawn
+                and self._request_event.triggered
                 and self._request_event.value is not None
             ):
                 return self._request_event.value
@@ -841,7 +842,7 @@ class Event(BaseEvent):
         Returns:
             SIM.Event
         """
-        if self.is_complete():
+        if self.is_complete() or self._event.defused:
             if self._auto_reset:
                 self.reset()
             else:
@@ -885,6 +886,9 @@ class Event(BaseEvent):
 
         Cancelling doesn't mean much, since it's still going to be yielded on.
         """
+        if self._event.triggered and not self._event.defused:
+            # The event has happened, so there is nothing to cancel.
+            return
         try:
             self._event.defused = True
             self._event.succeed()
-- 
2.43.0


From 4d985d3b7fdb3589baa96d3368056edec17c042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:08 +0000
Subject: [PATCH 030/110] fix: cancel an event once when it is in a combination
 several times

---
 src/upstage_des/events.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 7db9dfd..911c52b 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -433,15 +433,29 @@ class MultiEvent(BaseEvent):
 
     def cancel(self) -> None:
         """Cancel the multi event and propagate it to the sub-events."""
+        self._cancel_once(set())
+
+    def _cancel_once(self, seen: set[int]) -> None:
+        """Cancel the multi event, skipping sub-events that are already seen to.
+
+        Args:
+            seen (set[int]): Identifiers of events that have been cancelled.
+        """
         if self._simpy_event is None:
             raise UpstageError("Can't cancel a nonexistent event.")
         self._simpy_event.defused = True
         if not self._simpy_event.triggered:
             self._simpy_event.fail(Exception("defused"))
         for event in self.events:
+            if id(event) in seen:
+                continue
+            seen.add(id(event))
             if isinstance(event, BaseEvent):
                 try:
-                    event.cancel()
+                    if isinstance(event, MultiEvent):
+                        event._cancel_once(seen)
+                    else:
+                        event.cancel()
                 except Exception as e:
                     msg = f"Event {event} in {self} failed to cancel\n\t:{e}"
                     raise SimulationError(msg)
-- 
2.43.0


From aeff31a15d5857da21ac3de052f0baea661ed577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 031/110] fix: let a task be interrupted when the process it
 awaits has just ended

---
 src/upstage_des/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 158e30a..feb7b8d 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -454,7 +454,8 @@ class Task(SettableEnv):
                         actor.clear_knowledge(name, caller=f"Clearing knowledge event {name}")
                 next_event.cancel()
             elif isinstance(next_event, Process):
-                next_event.interrupt(cause=interrupt.cause)
+                if next_event.is_alive:
+                    next_event.interrupt(cause=interrupt.cause)
             else:
                 raise SimulationError(f"Bad event passed: {next_event}")
         elif _interrupt_action != InterruptStates.IGNORE:
-- 
2.43.0


From 91406b4df926126692b04400f48c2bba8482111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:30 +0000
Subject: [PATCH 032/110] fix: drop awaited knowledge events that are part of a
 combination on interrupt

---
 src/upstage_des/events.py | 20 ++++++++++++++++++++
 src/upstage_des/task.py   |  3 ++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 911c52b..10d547f 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -95,6 +95,14 @@ class BaseEvent(UpstageBase):
         """Cancel an event."""
         raise NotImplementedError("Implement custom event cancelling")
 
+    def events_within(self) -> "list[BaseEvent]":
+        """List this event, and any events it is a combination of.
+
+        Returns:
+            list[BaseEvent]: The events.
+        """
+        return [self]
+
     @property
     def rehearsing(self) -> bool:
         """If the event is rehearsing.
@@ -420,6 +428,18 @@ class MultiEvent(BaseEvent):
             return event
         return event.as_event()
 
+    def events_within(self) -> list[BaseEvent]:
+        """List this event, and the events it is a combination of.
+
+        Returns:
+            list[BaseEvent]: The events.
+        """
+        within: list[BaseEvent] = [self]
+        for event in self.events:
+            if isinstance(event, BaseEvent):
+                within.extend(event.events_within())
+        return within
+
     def as_event(self) -> SIM.Event:
         """Convert the UPSTAGE event to simpy.
 
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index feb7b8d..805857d 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -448,9 +448,10 @@ class Task(SettableEnv):
             actor.deactivate_all_states(task=self)
             actor.deactivate_all_mimic_states(task=self)
             if isinstance(next_event, BaseEvent):
+                awaited = next_event.events_within()
                 names = list(actor._knowledge.keys())
                 for name in names:
-                    if actor._knowledge[name] is next_event:
+                    if any(actor._knowledge[name] is event for event in awaited):
                         actor.clear_knowledge(name, caller=f"Clearing knowledge event {name}")
                 next_event.cancel()
             elif isinstance(next_event, Process):
-- 
2.43.0


From 3d36fe4274aa67f159805727f345ca194abf5388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:38 +0000
Subject: [PATCH 033/110] fix: let decision tasks be interrupted while they
 hold

---
 src/upstage_des/task.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 805857d..99e0439 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -616,9 +616,23 @@ class DecisionTask(Task):
         Yields:
             Generator[SimpyEvent, None, None]: Generator for SimPy event queue.
         """
-        self.make_decision(actor=actor)
         assert isinstance(self.env, SimpyEnv)
-        yield self.env.timeout(0.0)
+        hold: SimpyEvent | None = None
+        while True:
+            if hold is None:
+                self.make_decision(actor=actor)
+                hold = self.env.timeout(0.0)
+            try:
+                yield hold
+                break
+            except Interrupt as interrupt:
+                action = self.on_interrupt(actor=actor, cause=interrupt.cause)
+                if action == InterruptStates.END:
+                    break
+                elif action == InterruptStates.RESTART:
+                    hold = None
+                elif action != InterruptStates.IGNORE:
+                    raise SimulationError(f"Wrong interrupt action value: {action}")
 
     def run_skip(self, *, actor: "Actor") -> None:
         """Run the decision task with no clock reference.
-- 
2.43.0


From a2b6569bb9868233b7e10dd4d6658301cc90f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:12 +0000
Subject: [PATCH 034/110] fix: keep repeated tasks apart in ordered task
 networks

---
 src/upstage_des/task_network.py | 38 +++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/upstage_des/task_network.py b/src/upstage_des/task_network.py
index 3c0c8c6..126f297 100644
--- a/src/upstage_des/task_network.py
+++ b/src/upstage_des/task_network.py
@@ -199,6 +199,26 @@ class TaskNetwork:
         return f"Task network: {self.name}"
 
 
+def _sequence_names(task_classes: Sequence[type[Task]]) -> list[str]:
+    """Name the tasks of a sequence by their class, numbering repeats.
+
+    Args:
+        task_classes (Sequence[type[Task]]): The tasks in order.
+
+    Returns:
+        list[str]: A different name for every task.
+    """
+    names: list[str] = []
+    for task_class in task_classes:
+        name = task_class.__name__
+        repeat = 1
+        while name in names:
+            repeat += 1
+            name = f"{task_class.__name__}_{repeat}"
+        names.append(name)
+    return names
+
+
 class TaskNetworkFactory:
     """A factory for creating task network instances."""
 
@@ -275,16 +295,15 @@ class TaskNetworkFactory:
         """
         task_class = {}
         task_links: dict[str, TaskLinks] = {}
+        names = _sequence_names(task_classes)
         for i, tc in enumerate(task_classes):
-            the_name = tc.__name__
+            the_name = names[i]
             task_class[the_name] = tc
             try:
-                nxt = task_classes[i + 1]
-                nxt_name = nxt.__name__
+                nxt_name = names[i + 1]
             except IndexError:
-                nxt = TerminalTask
                 nxt_name = f"{name}_TERMINATING"
-                task_class[nxt_name] = nxt
+                task_class[nxt_name] = TerminalTask
             task_links[the_name] = TaskLinks(default=nxt_name, allowed=[nxt_name])
         return TaskNetworkFactory(name, task_class, task_links)
 
@@ -301,14 +320,11 @@ class TaskNetworkFactory:
         """
         task_class = {}
         task_links: dict[str, TaskLinks] = {}
+        names = _sequence_names(task_classes)
         for i, tc in enumerate(task_classes):
-            the_name = tc.__name__
+            the_name = names[i]
             task_class[the_name] = tc
-            try:
-                nxt = task_classes[i + 1]
-            except IndexError:
-                nxt = task_classes[0]
-            nxt_name = nxt.__name__
+            nxt_name = names[(i + 1) % len(names)]
             task_links[the_name] = TaskLinks(default=nxt_name, allowed=[nxt_name])
         return TaskNetworkFactory(name, task_class, task_links)
 
-- 
2.43.0


From 45b6dd7a3e3e6a9b82874b48c2862944dabd5b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:08 +0000
Subject: [PATCH 035/110] fix: do not interrupt a task that has just ended when
 a watched state changes

---
 src/upstage_des/nucleus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index d04f4fa..0939815 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -104,7 +104,9 @@ class TaskNetworkNucleus:
             if net is None:
                 raise UpstageError(f"No network {net_name} in {self._actor}")
             proc = net._current_task_proc
-            if proc is not None:
+            # A task that just ended is not running, but its network may not
+            # have moved on yet.
+            if proc is not None and proc.is_alive:
                 proc.interrupt(
                     cause=NucleusInterrupt(state_name, state_value),
                 )
-- 
2.43.0


From 8136f1d223889431bd85d2271e2e68a0df6eeebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:03 +0000
Subject: [PATCH 036/110] fix: give values to routines, and take only the
 returned value from them

---
 src/upstage_des/routines.py | 5 +++--
 src/upstage_des/task.py     | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 1a6ac68..f5aa41e 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -45,11 +45,12 @@ class Routine(SettableEnv):
     def _run(self) -> ROUTINE_GEN:
         try:
             gen = self.run()
+            value: Any = None
             while True:
-                evt = next(gen)
+                evt = gen.send(value)
                 if not isinstance(evt, BaseEvent):
                     raise SimulationError("Routines only support BaseEvent subclasses.")
-                yield evt
+                value = yield evt
         except StopIteration as e:
             return e.value
         except GeneratorExit:
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 99e0439..af0f4f7 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -495,8 +495,8 @@ class Task(SettableEnv):
                         except StopIteration as e:
                             generators.pop()
                             gen_objs.pop()
-                            if e.value is not None:
-                                return_item = e.value
+                            # A routine gives back what it returns, if anything.
+                            return_item = e.value
                             if not generators:
                                 stop_run = True
                                 break
@@ -507,6 +507,8 @@ class Task(SettableEnv):
                         if isinstance(next_event, Routine):
                             generators.append(next_event._run())
                             gen_objs.append(next_event)
+                            # The last value was for whoever yielded the routine
+                            return_item = None
                             continue
 
                         if isinstance(next_event, Process):
-- 
2.43.0


From 78c8ed80657748557b4af6dfc25a017a4c2b96cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:03 +0000
Subject: [PATCH 037/110] fix: a Get can give a value of None

---
 src/upstage_des/events.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 10d547f..1390789 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -661,7 +661,6 @@ class Get(BaseRequestEvent):
                 self._request_event is not None
                 and not self._withdrawn
                 and self._request_event.triggered
-                and self._request_event.value is not None
             ):
                 return self._request_event.value
             else:
-- 
2.43.0


From 83c3c8f0f799566a37e8fa6ba6660632ef702acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:34 +0000
Subject: [PATCH 038/110] fix: an interrupt while a routine cancels does not
 stop the cancelling

---
 src/upstage_des/task.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index af0f4f7..c2a25c2 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -482,6 +482,8 @@ class Task(SettableEnv):
         return_item = None
         stop_run = False
         back_from_interrupt = False
+        # Interrupts that came while routines were cancelled, for after a restart
+        late_interrupts: list[Interrupt] = []
         event_to_yield: Process | SimpyEvent
         while not stop_run:
             try:
@@ -524,6 +526,8 @@ class Task(SettableEnv):
                             raise SimulationError(f"Unexpected yielded event type: {next_event}")
                     else:
                         back_from_interrupt = False
+                    if late_interrupts:
+                        raise late_interrupts.pop(0)
                     return_item = yield event_to_yield
                     # TODO: test if the return_item is for a multi-event
                     # that way we can return it as a more useful object
@@ -545,7 +549,14 @@ class Task(SettableEnv):
                         gen_obj = gen_objs.pop()
                         if isinstance(gen_obj, Routine):
                             gen.close()
-                            yield from gen_obj._run_cancel()
+                            for cancel_event in gen_obj._run_cancel():
+                                cancelling = True
+                                while cancelling:
+                                    try:
+                                        yield cancel_event
+                                        cancelling = False
+                                    except Interrupt as late:
+                                        late_interrupts.append(late)
                     if action == InterruptStates.RESTART:
                         generators = [
                             self.task(actor=actor),
-- 
2.43.0


From 9b74c26d70453c6ee7957444bdb101a1d811432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:53 +0000
Subject: [PATCH 039/110] fix: a sorted filter store hands out falsy items and
 exactly the one selected

---
 src/upstage_des/resources/sorted.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/resources/sorted.py b/src/upstage_des/resources/sorted.py
index 576ce0b..d4ff38e 100644
--- a/src/upstage_des/resources/sorted.py
+++ b/src/upstage_des/resources/sorted.py
@@ -81,22 +81,22 @@ class SortedFilterStore(Store):
         get = BoundClass(_SortedFilterStoreGet)
 
     def _do_get(self, event: _SortedFilterStoreGet) -> bool:  # type: ignore[override]
-        min_item: Any = None
+        # items are found by position, since they may compare equal or be falsy
+        min_index: int | None = None
         # min_val is a tuple, in case the sorter returns an iterable
         min_val: tuple[Any, ...] | None = None
-        for item in self.items:
+        for index, item in enumerate(self.items):
             if event.filter(item):
                 if event.sorter is not None:
                     val = event.sorter(item)
                     if min_val is None or (val > min_val if event.reverse else val < min_val):
-                        min_item = item
+                        min_index = index
                         min_val = val
                 else:
-                    min_item = item
+                    min_index = index
                     break
-        if min_item:
-            self.items.remove(min_item)
-            event.succeed(min_item)
+        if min_index is not None:
+            event.succeed(self.items.pop(min_index))
         return True
 
 
-- 
2.43.0


From 1ac7ea6cd3ab68f96be193b14bfc2b3623da3355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:14 +0000
Subject: [PATCH 040/110] fix: cancel a reservation of an equal requester

---
 src/upstage_des/resources/reserve.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 80416ea..2267eed 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -103,11 +103,8 @@ class ReserveContainer:
         if requester not in self._queued:
             return False
         else:
-            request = [x for x in self._queued if x is requester]
-            if not request:
-                raise ValueError("Requester not available to cancel")
-            self._level += self._queued[requester][0]
-            self._queued.pop(request[0])
+            amount, _ = self._queued.pop(requester)
+            self._level += amount
             return True
 
     def take(self, requester: Any) -> float:
-- 
2.43.0


From 278c5f88805458822eea4e3995435384715e6c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:38 +0000
Subject: [PATCH 041/110] fix: count reserved amounts against the capacity of a
 reserve container

---
 src/upstage_des/resources/reserve.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 2267eed..06a99c0 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -118,9 +118,8 @@ class ReserveContainer:
 
     def put(self, amount: float, capacity_increase: bool = False) -> None:
         """Put some quantity back in."""
-        new = self._level + amount
-        if new > self.capacity and not capacity_increase:
+        if self._real_level + amount > self.capacity and not capacity_increase:
             raise ValueError("Adding too much.")
         else:
-            self._level = new
+            self._level += amount
             self._real_level += amount
-- 
2.43.0


From 01030388bd45d41f28a3275eb3e21cf0f967e3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:29 +0000
Subject: [PATCH 042/110] fix: end only the reservation whose time limit passed

---
 src/upstage_des/resources/reserve.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 06a99c0..42aee75 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -72,7 +72,9 @@ class ReserveContainer:
         return list(self._queued.keys())
 
     @process
-    def _expire_request(self, requester: Any, time: float) -> Generator[Event, None, None]:
+    def _expire_request(
+        self, requester: Any, request: tuple[float, float], time: float
+    ) -> Generator[Event, None, None]:
         """Expire the request after an expiration period or at a specific time.
 
         :param request: the Request namedtuple object
@@ -83,7 +85,9 @@ class ReserveContainer:
 
         """
         yield self._env.timeout(time)
-        self.cancel_request(requester)
+        # The requester may have made another reservation in the meantime.
+        if self._queued.get(requester) is request:
+            self.cancel_request(requester)
 
     def reserve(self, requester: Any, quantity: float, expiration: float | None = None) -> bool:
         """Reserve a quantity of storage."""
@@ -91,9 +95,10 @@ class ReserveContainer:
             return False
         elif requester not in self._queued:
             self._level -= quantity
-            self._queued[requester] = (quantity, self._env.now)
+            request = (quantity, self._env.now)
+            self._queued[requester] = request
             if expiration is not None:
-                self._expire_request(requester, expiration)
+                self._expire_request(requester, request, expiration)
             return True
         else:
             return False
-- 
2.43.0


From 4b49f9098014ec223eb3a7b61887f20568462fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:31 +0000
Subject: [PATCH 043/110] fix: count from the current level in time_until_level

---
 src/upstage_des/resources/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index dc76d40..18fe115 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -220,7 +220,7 @@ class ContinuousContainer:
             return 0.0  # pragma: no cover
         elif rate == 0:
             return float("inf")  # pragma: no cover
-        time = (level - self._level) / rate
+        time = (level - self.level) / rate
         return time if time > 0 else float("inf")
 
     def time_until_done(self, rate: float = 0.0) -> float:
-- 
2.43.0


From b9092f95246a018ca0eb6fb250c9e61ab7411070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:15 +0000
Subject: [PATCH 044/110] fix: reach the bounds of a continuous container
 exactly

---
 src/upstage_des/resources/container.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index 18fe115..2fd8eb9 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -293,7 +293,9 @@ class ContinuousContainer:
         """
         now = self._env.now
         if now > self._last:
-            self._level += self._rate * (now - self._last)
+            level = self._level + self._rate * (now - self._last)
+            # Rounding can take the level just past the bound it reaches.
+            self._level = min(max(level, 0.0), self._capacity)
             self._last = now
         return self._level
 
@@ -336,10 +338,14 @@ class ContinuousContainer:
 
         level = self.level
 
-        check_wait = ((self._capacity if self._rate > 0 else 0.0) - level) / self._rate
+        bound = self._capacity if self._rate > 0 else 0.0
+        check_wait = (bound - level) / self._rate
 
         try:
             yield self._env.timeout(check_wait)
+            # Rounding can leave the level just short of the bound.
+            self._level = bound
+            self._last = self._env.now
         except Interrupt as interruption:
             if interruption.cause != "updated":
                 raise  # pragma: no cover
-- 
2.43.0


From 5708b8e79be1a5af464d242bb861b7056b2d192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:37 +0000
Subject: [PATCH 045/110] fix: leave a superseded check of a continuous
 container to the new one

---
 src/upstage_des/resources/container.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index 2fd8eb9..aeaf9a8 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -349,18 +349,20 @@ class ContinuousContainer:
         except Interrupt as interruption:
             if interruption.cause != "updated":
                 raise  # pragma: no cover
-        finally:
-            to_rem: list[ContinuousGet] | list[ContinuousPut] = []
-            rate: float
-            self._set_level()
-            if self._rate < 0:
-                to_rem, rate = self._check_empty()
-            elif self._rate > 0:
-                to_rem, rate = self._check_full()
-            if to_rem:
-                for req in to_rem:
-                    self._active_users.remove(req)
-                self._add_rate(rate, interrupt=False)
+            # Another check takes over when there is still flow.
+            return
+
+        to_rem: list[ContinuousGet] | list[ContinuousPut] = []
+        rate: float
+        self._set_level()
+        if self._rate < 0:
+            to_rem, rate = self._check_empty()
+        elif self._rate > 0:
+            to_rem, rate = self._check_full()
+        if to_rem:
+            for req in to_rem:
+                self._active_users.remove(req)
+            self._add_rate(rate, interrupt=False)
 
     def _add_rate(self, rate_change: float | int, interrupt: bool = True) -> None:
         """Add a new rate to the existing rate."""
-- 
2.43.0


From 06a2506072ebf8cf1a53cd08e10acb77aa7c8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:42 +0000
Subject: [PATCH 046/110] fix: no flow remains in a continuous container when
 its requests have ended

---
 src/upstage_des/resources/container.py | 33 ++++++++++++++++++--------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index aeaf9a8..0f9d4ab 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -5,6 +5,7 @@
 """This file contains a ContinuousContainer."""
 
 from collections.abc import Callable, Generator
+from math import fsum
 from typing import TYPE_CHECKING, Any
 
 from simpy import Environment, Event, Interrupt, Process
@@ -178,6 +179,8 @@ class ContinuousContainer:
         self.error_full = error_full
 
         self._rate: float = 0.0
+        # Flow that is not from a put or get
+        self._base_rate: float = 0.0
         self._env: Environment = env
         self._last: float = self._env.now
         self._active_users: list[_ContinuousEvent] = []
@@ -353,30 +356,41 @@ class ContinuousContainer:
             return
 
         to_rem: list[ContinuousGet] | list[ContinuousPut] = []
-        rate: float
         self._set_level()
         if self._rate < 0:
-            to_rem, rate = self._check_empty()
+            to_rem, _ = self._check_empty()
         elif self._rate > 0:
-            to_rem, rate = self._check_full()
+            to_rem, _ = self._check_full()
         if to_rem:
             for req in to_rem:
                 self._active_users.remove(req)
-            self._add_rate(rate, interrupt=False)
+            self._update_rate(interrupt=False)
 
-    def _add_rate(self, rate_change: float | int, interrupt: bool = True) -> None:
-        """Add a new rate to the existing rate."""
+    def _net_rate(self) -> float:
+        """Get the net rate of all the flows."""
+        rates = [self._base_rate, *(user.rate for user in self._active_users)]
+        net = fsum(rates)
+        # What rounding leaves of flows that balance is not a flow.
+        return 0.0 if abs(net) < 1e-12 * max(abs(rate) for rate in rates) else net
+
+    def _update_rate(self, interrupt: bool = True) -> None:
+        """Use the net rate of the current flows from now on."""
         if self._checking is not None and interrupt:
             self._checking.interrupt("updated")
 
         self._set_level()
-        self._rate += rate_change
+        self._rate = self._net_rate()
 
         if self._rate == 0.0:
             self._checking = None
         else:
             self._checking = self._env.process(self._check())
 
+    def _add_rate(self, rate_change: float | int) -> None:
+        """Add a new rate to the existing rate."""
+        self._base_rate += rate_change
+        self._update_rate()
+
     def add_user(self, user: _ContinuousEvent) -> None:
         """Add a user to the container.
 
@@ -384,7 +398,7 @@ class ContinuousContainer:
             user (_ContinuousEvent): The user event
         """
         self._active_users.append(user)
-        self._add_rate(user.rate)
+        self._update_rate()
 
     def remove_user(self, user: _ContinuousEvent) -> None:
         """Remove a user of the container.
@@ -392,9 +406,8 @@ class ContinuousContainer:
         Args:
             user (_ContinuousEvent): The user event.
         """
-        to_remove_rate = -1 * user.rate
         self._active_users.remove(user)
-        self._add_rate(to_remove_rate)
+        self._update_rate()
 
     def _set_new_rate(self, rate: float | int) -> None:
         """Set a new rate.
-- 
2.43.0


From 405ef311d12be30aa38e5a16a9c74e775a60dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:15 +0000
Subject: [PATCH 047/110] fix: drop the destination, too, when the hop to it
 fails

---
 src/upstage_des/communications/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index 4ea0d91..abe05d9 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -265,9 +265,11 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
         u, v = source.name, dest.name
         if u not in self._network:
             return None
+        ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
+        if v in ignore_names:
+            return None
         if v in self._network[u]:
             return dest
-        ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
         net = {k: v - set(ignore_names) for k, v in self._network.items() if k not in ignore_names}
         path = _shortest_path(net, u, v)
         if not path:
-- 
2.43.0


From ba8822c5444b0f2e97eeae462cc5b27a0bd9a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 048/110] fix: convert between all of the documented time units

---
 src/upstage_des/units/convert.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/units/convert.py b/src/upstage_des/units/convert.py
index 9c51b0c..91eaebb 100644
--- a/src/upstage_des/units/convert.py
+++ b/src/upstage_des/units/convert.py
@@ -24,11 +24,29 @@ CONVERSIONS: dict[str, dict[str, float]] = {
         "nmi": 1.0,
         "m": 1 / 0.539957 * 1000,
     },
-    "s": {"hr": 1.0 / (60.0 * 60.0), "min": 1.0 / 60.0, "s": 1.0},
-    "min": {"hr": 1.0 / 60.0, "min": 1.0, "s": 60.0},
-    "hr": {"hr": 1.0, "min": 60.0, "s": (60.0 * 60.0)},
-    "day": {"hr": 24.0, "week": 1 / 7.0, "min": 24 * 60.0, "s": 24 * 3600},
-    "week": {"day": 7.0, "hr": 7.0 * 24, "min": 7.0 * 24 * 60.0, "s": 7.0 * 24 * 3600},
+    "s": {
+        "week": 1.0 / (7.0 * 24 * 3600),
+        "day": 1.0 / (24.0 * 3600),
+        "hr": 1.0 / (60.0 * 60.0),
+        "min": 1.0 / 60.0,
+        "s": 1.0,
+    },
+    "min": {
+        "week": 1.0 / (7.0 * 24 * 60),
+        "day": 1.0 / (24.0 * 60),
+        "hr": 1.0 / 60.0,
+        "min": 1.0,
+        "s": 60.0,
+    },
+    "hr": {"week": 1.0 / (7.0 * 24), "day": 1.0 / 24.0, "hr": 1.0, "min": 60.0, "s": (60.0 * 60.0)},
+    "day": {"week": 1 / 7.0, "day": 1.0, "hr": 24.0, "min": 24 * 60.0, "s": 24 * 3600},
+    "week": {
+        "week": 1.0,
+        "day": 7.0,
+        "hr": 7.0 * 24,
+        "min": 7.0 * 24 * 60.0,
+        "s": 7.0 * 24 * 3600,
+    },
 }
 
 DISTANCE_UNITS = ["m", "km", "mi", "nmi", "ft"]
-- 
2.43.0


From 69dcfe62725232a91ef8635f12cc095de49e807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 049/110] fix: recognise upper-case time units in pretty_now

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index d952c44..21758e6 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -349,7 +349,7 @@ class UpstageBase:
         time_unit = self.stage.get("time_unit", None)
         # If it's explicitly set to None, still treat it as hours.
         time_unit = "hr" if time_unit is None else time_unit
-        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit)
+        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit.lower())
 
         ts: str
         if standard in STANDARD_TIMES:
-- 
2.43.0


From 426bf11aab96c5498ae039d3fc4fd96e4d0ee0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:52 +0000
Subject: [PATCH 050/110] fix: show the current second in pretty_now

---
 src/upstage_des/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 21758e6..adcf1f0 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -353,10 +353,10 @@ class UpstageBase:
 
         ts: str
         if standard in STANDARD_TIMES:
-            now_hrs = unit_convert(now, time_unit, "hr")
-            day = floor(now_hrs / 24)
-            rem_hours = now_hrs - (day * 24)
-            hms = strftime("%H:%M:%S", gmtime(rem_hours * 3600))
+            # Round off float noise so that it never shows the second before.
+            now_secs = round(unit_convert(now, time_unit, "s"), 6)
+            day, rem_secs = divmod(now_secs, 24 * 3600)
+            hms = strftime("%H:%M:%S", gmtime(rem_secs))
             ts = f"[Day {day:4.0f} - {hms:s}]"
         else:
             day_unit_count = self.stage.get("daily_time_count", None)
-- 
2.43.0


From 1e084691737fa389f6ce10b95983233355c73e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:54 +0000
Subject: [PATCH 051/110] fix: convert the time of a Wait when the stage has no
 time unit

---
 src/upstage_des/events.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 1390789..74fa159 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -181,10 +181,11 @@ class Wait(BaseEvent):
         Returns:
             float: Time in stage units
         """
-        base_unit = self.stage.get("time_unit")
-        if base_unit is not None and unit is not None:
-            return unit_convert(time, unit, base_unit)
-        return time
+        if unit is None:
+            return time
+        base_unit = self.stage.get("time_unit", None)
+        # Without a time unit the clock counts hours.
+        return unit_convert(time, unit, "hr" if base_unit is None else base_unit)
 
     def __init__(
         self,
-- 
2.43.0


From 8cafcfa65ef94d602555b7e4f44ae5558db735db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:13 +0000
Subject: [PATCH 052/110] fix: compare locations in degrees and radians
 symmetrically

---
 src/upstage_des/data_types.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/upstage_des/data_types.py b/src/upstage_des/data_types.py
index 84adeb8..8115312 100644
--- a/src/upstage_des/data_types.py
+++ b/src/upstage_des/data_types.py
@@ -502,14 +502,12 @@ class GeodeticLocation(Location):
         """
         if not isinstance(other, GeodeticLocation):
             raise ValueError(f"Cannot compare a {other.__class__.__name__} to a GeodeticLocation")
-        if other.in_radians != self.in_radians:
-            if self.in_radians:
-                other = other.to_radians()
-            else:
-                other = other.to_degrees()
-        return all(
-            getattr(self, dimension) == getattr(other, dimension)
-            for dimension in ["lat", "lon", "alt"]
+        if other.in_radians == self.in_radians:
+            return self._to_tuple() == other._to_tuple()
+        # Converting an angle and back may be off by rounding, so check both ways.
+        return (
+            self.to_radians()._to_tuple() == other.to_radians()._to_tuple()
+            or self.to_degrees()._to_tuple() == other.to_degrees()._to_tuple()
         )
 
     def __hash__(self) -> int:
@@ -622,11 +620,12 @@ class GeodeticLocationData:
             raise ValueError(
                 f"Cannot compare a {value.__class__.__name__} to a GeodeticLocationData"
             )
+        mine = [self.lat, self.lon]
         other = [value.lat, value.lon]
-        if value.in_radians != self.in_radians:
-            if self.in_radians:
-                other = list(map(radians, other))
-            else:
-                other = list(map(degrees, other))
-        angles = [self.lat, self.lon] == other
+        if value.in_radians == self.in_radians:
+            angles = mine == other
+        else:
+            # Converting an angle and back may be off by rounding, so check both ways.
+            in_deg, in_rad = (other, mine) if self.in_radians else (mine, other)
+            angles = list(map(radians, in_deg)) == in_rad or list(map(degrees, in_rad)) == in_deg
         return angles and self.alt == value.alt
-- 
2.43.0


From ff311b638a8679a77555c332b85ff36224c3ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 053/110] fix: tell apart Cartesian data in distance and
 altitude units

---
 src/upstage_des/data_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/data_types.py b/src/upstage_des/data_types.py
index 8115312..26539ed 100644
--- a/src/upstage_des/data_types.py
+++ b/src/upstage_des/data_types.py
@@ -541,7 +541,7 @@ class CartesianLocationData:
         self.x = x
         self.y = y
         self.z = z
-        self.use_altitude_unts = use_altitude_units
+        self.use_altitude_units = use_altitude_units
 
     def make_location(self) -> CartesianLocation:
         """Create a location from the data.
@@ -552,7 +552,7 @@ class CartesianLocationData:
             CartesianLocation: The location object.
         """
         return CartesianLocation(
-            x=self.x, y=self.y, z=self.z, use_altitude_units=self.use_altitude_unts
+            x=self.x, y=self.y, z=self.z, use_altitude_units=self.use_altitude_units
         )
 
     def __eq__(self, value: Any) -> bool:
@@ -561,6 +561,8 @@ class CartesianLocationData:
             raise ValueError(
                 f"Cannot compare a {value.__class__.__name__} to a CartesianLocationData"
             )
+        if self.use_altitude_units != value.use_altitude_units and self.z != 0:
+            return False
         check = ["x", "y", "z"]
         return all(getattr(self, c) == getattr(value, c) for c in check)
 
-- 
2.43.0


From 32116a4ed223b68beb91ab27819b76910f9efda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:38 +0000
Subject: [PATCH 054/110] fix: stop the states of a task in the same order in
 every run

---
 src/upstage_des/actor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index b967e64..f657438 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -431,7 +431,9 @@ Args:
         Args:
             task (Task): The task that is deactivating the states.
         """
-        state_names = list(self._states_by_task[task])
+        # The order of a set of strings changes from run to run
+        by_task = self._states_by_task[task]
+        state_names = [name for name in self._state_defs if name in by_task]
         self.deactivate_states(states=state_names, task=task)
 
     def get_active_state_data(
@@ -534,7 +536,8 @@ Args:
         Args:
             task (Task): The task where states are mimicking others.
         """
-        for state in list(self._mimic_states_by_task[task]):
+        by_task = self._mimic_states_by_task[task]
+        for state in [name for name in self._mimic_states if name in by_task]:
             self.deactivate_mimic_state(self_state=state, task=task)
 
     def _add_callback_to_state(
-- 
2.43.0


From e8f4f38d0b511eb5555ddf64c3f6897607ee29c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:40 +0000
Subject: [PATCH 055/110] fix: notify the networks of a nucleus in the same
 order in every run

---
 src/upstage_des/nucleus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index 0939815..aaf24b4 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -50,7 +50,8 @@ class TaskNetworkNucleus:
             actor (Actor): The actor instance.
         """
         self._actor = actor
-        self._state_map: dict[str, set[str]] = defaultdict(set)
+        # In order of addition, for the same order of interrupts in every run
+        self._state_map: dict[str, list[str]] = defaultdict(list)
         self._network_map: dict[str, set[str]] = defaultdict(set)
         self._attach()
 
@@ -70,7 +71,8 @@ class TaskNetworkNucleus:
         if network_name not in self._actor._task_networks:
             raise UpstageError(f"No network {network_name} in {self._actor}")
         for state in watch_states:
-            self._state_map[state].add(network_name)
+            if network_name not in self._state_map[state]:
+                self._state_map[state].append(network_name)
             self._network_map[network_name].add(state)
             # if not hasattr(actor, state):
             #     raise SimulationError(f"State {state} does not exist on actor")
-- 
2.43.0


From 625958aa78a98bcdca855b7faa10053ee6e6769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:42 +0000
Subject: [PATCH 056/110] fix: choose between equally short routes in the same
 way in every run

---
 src/upstage_des/communications/routing.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index abe05d9..e68bfdf 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -14,14 +14,14 @@ from upstage_des.task import process
 from upstage_des.type_help import SIMPY_GEN
 
 
-def _shortest_path(network: dict[str, set[str]], start: str, goal: str) -> list[str]:
+def _shortest_path(network: dict[str, list[str]], start: str, goal: str) -> list[str]:
     """Dijkstra for network path."""
     queue = deque([(start, [start])])
     visited = {start}
 
     while queue:
         node, path = queue.popleft()
-        for neighbor in network.get(node, set()):
+        for neighbor in network.get(node, []):
             if neighbor == goal:
                 return path + [neighbor]
             if neighbor not in visited:
@@ -224,7 +224,8 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
             debug_logging=debug_logging,
         )
         self._nodes: dict[str, Actor] = {}
-        self._network: dict[str, set[str]] = defaultdict(set)
+        # In order of connection, for the same choice of route in every run
+        self._network: dict[str, list[str]] = defaultdict(list)
 
     def connect_nodes(self, u: Actor, v: Actor, two_way: bool = False) -> None:
         """Connect node u to v (one-way).
@@ -243,9 +244,10 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
 
         self._nodes[u.name] = u
         self._nodes[v.name] = v
-        self._network[u.name].add(v.name)
-        if two_way:
-            self._network[v.name].add(u.name)
+        pairs = [(u.name, v.name), (v.name, u.name)] if two_way else [(u.name, v.name)]
+        for start, end in pairs:
+            if end not in self._network[start]:
+                self._network[start].append(end)
 
     def select_hop(
         self, source: Actor, dest: Actor, ignore_nodes: list[Actor] | None = None
@@ -270,7 +272,11 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
             return None
         if v in self._network[u]:
             return dest
-        net = {k: v - set(ignore_names) for k, v in self._network.items() if k not in ignore_names}
+        net = {
+            k: [name for name in names if name not in ignore_names]
+            for k, names in self._network.items()
+            if k not in ignore_names
+        }
         path = _shortest_path(net, u, v)
         if not path:
             return None
-- 
2.43.0


From 17c87c7961ab830532b5939a84990a22860ae023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:44 +0000
Subject: [PATCH 057/110] fix: notify sensors of a lost mover in the same order
 in every run

---
 src/upstage_des/motion/motion.py         |  9 +++++----
 src/upstage_des/motion/stepped_motion.py | 14 ++++++++------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 3d670df..8c3a4a9 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -102,7 +102,8 @@ class SensorMotionManager(UpstageBase):
         self._sensors: dict[SensorType, tuple[str, str]] = {}
         self._movers: dict[Actor, tuple[float, LOC_LIST, float]] = {}
         self._events: dict[Actor, list[tuple[SensorType, Process]]] = {}
-        self._in_view: dict[Actor, set[SensorType]] = {}
+        # In order of detection, for the same order of notices in every run
+        self._in_view: dict[Actor, dict[SensorType, None]] = {}
         self._debug: bool = debug
         self._debug_data: dict[Actor, list[Any]] = {}
         self._debug_log: list[Any] = []
@@ -265,9 +266,9 @@ class SensorMotionManager(UpstageBase):
             bool: If it was already in view.
         """
         if mover not in self._in_view:
-            self._in_view[mover] = set()
+            self._in_view[mover] = {}
         was_in = sensor in self._in_view[mover]
-        self._in_view[mover].add(sensor)
+        self._in_view[mover][sensor] = None
         return was_in
 
     def _remove_from_view(self, mover: Actor, sensor: SensorType) -> None:
@@ -281,7 +282,7 @@ class SensorMotionManager(UpstageBase):
             raise MotionAndDetectionError(f"{mover} isn't in view of anything to remove.")
         if sensor not in self._in_view[mover]:
             raise MotionAndDetectionError(f"{mover} isn't in view of {sensor} to allow clearing.")
-        self._in_view[mover].remove(sensor)
+        del self._in_view[mover][sensor]
 
     def _end_notify(self, mover: Actor, sensor: SensorType, event: str) -> None:
         """End notification and give a reason.
diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 150e394..b99e363 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -73,7 +73,8 @@ class SteppedMotionManager(UpstageBase):
         super().__init__()
         self._sensors: dict[SensorType, tuple[Callable[[], float], Callable[[], LOC_TYPES]]] = {}
         self._detectables: dict[Actor, Callable[[], LOC_TYPES]] = {}
-        self._in_view: set[tuple[SensorType, Actor]] = set()
+        # In order of detection, for the same order of notices in every run
+        self._in_view: dict[tuple[SensorType, Actor], None] = {}
         self._timestep = timestep
         self._max_empty_events = max_empty_events
         self._debug = debug
@@ -99,11 +100,11 @@ class SteppedMotionManager(UpstageBase):
         """
         if visible:
             if (sensor, object) not in self._in_view:
-                self._in_view.add((sensor, object))
+                self._in_view[(sensor, object)] = None
                 sensor.entity_entered_range(object)
         else:
             if (sensor, object) in self._in_view:
-                self._in_view.remove((sensor, object))
+                del self._in_view[(sensor, object)]
                 sensor.entity_exited_range(object)
 
     def _test_detect(self, detectable: Actor) -> bool:
@@ -282,12 +283,13 @@ class SteppedMotionManager(UpstageBase):
         an object should no longer be considered by that sensor.
         """
         # TODO: key on detectable may make it faster
-        to_rem = set()
+        to_rem = []
         for sensor, detect in self._in_view:
             if detect is detectable:
                 sensor.entity_exited_range(detectable)
-                to_rem.add((sensor, detect))
-        self._in_view -= to_rem
+                to_rem.append((sensor, detect))
+        for pair in to_rem:
+            del self._in_view[pair]
 
     def _mover_became_detectable(self, detectable: Actor) -> None:
         """Called via DetectabilityState state when an object becomes detectable.
-- 
2.43.0


From bccb4c9abeeb18b6286b7700e7d8776a58dee767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:46 +0000
Subject: [PATCH 058/110] fix: list the entity groups in the same order in
 every run

---
 src/upstage_des/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index adcf1f0..cd45bb1 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -415,7 +415,8 @@ class NamedUpstageEntity(UpstageBase):
         Args:
             group_names (list[str]): Group names to add to
         """
-        for group_name in group_names:
+        # The order of a set of strings changes from run to run
+        for group_name in sorted(group_names):
             if group_name in SKIP_GROUPS:
                 continue
             self._add_to_group(group_name)
-- 
2.43.0


From 70f127f1f9ea4a1e2cd559d9ef6619e1d2a2b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:07 +0000
Subject: [PATCH 059/110] fix: set the default values of an actor in the same
 order in every run

---
 src/upstage_des/actor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index f657438..6978dbd 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -76,7 +76,8 @@ class Actor(SettableEnv, NamedUpstageEntity):
             else:
                 raise UpstageError(f"Input to {self} was not expected: {state}={value}")
         exist = set(self._state_defs.keys())
-        unseen = exist - seen
+        # The order of a set of strings changes from run to run
+        unseen = [name for name in self._state_defs if name not in seen]
         for state_name in unseen:
             _state = self._state_defs[state_name]
             if _state.has_default():
-- 
2.43.0


From 44fb204970c94c629fe7f6e0bec26a4571d8bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:49 +0000
Subject: [PATCH 060/110] fix: recording functions are not given the activation
 status

A recording active state with recording functions called them with the
ActiveStatus enum on (de)activation, when they take a value of the state.
---
 src/upstage_des/states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 865bf41..0fbd3ae 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -210,7 +210,9 @@ class State(Generic[ST]):
         ):
             instance._state_histories[self.name].append(to_append)
 
-        self._do_record_funcs(instance, *to_append)
+        # The functions expect a value of the state, not the activation status
+        if override is None:
+            self._do_record_funcs(instance, *to_append)
 
     def _do_callback(self, instance: "Actor", value: ST) -> None:
         """Run callbacks for the state change.
-- 
2.43.0


From 804b9d00ffbaecad322e7ad702677d44e012c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:45 +0000
Subject: [PATCH 061/110] fix: location states record their value when
 activated

The activation status marked the last recorded value, whatever its time,
because motion states only recorded themselves after some time had passed.
---
 src/upstage_des/states.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 0fbd3ae..93bfcf4 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -663,6 +663,8 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
 
         path_data: dict[str, Any] | None = data.get("path_data", None)
         if path_data is None:
+            # The value goes in the history before the activation status does
+            self._do_record(instance, data["value"])
             self._setup(instance)
             data = self.get_activity_data(instance)
 
@@ -864,6 +866,8 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
 
         path_data: dict[str, Any] | None = data.get("path_data", None)
         if path_data is None:
+            # The value goes in the history before the activation status does
+            self._do_record(instance, data["value"])
             self._setup(instance)
             data = self.get_activity_data(instance)
 
-- 
2.43.0


From 09a9553ca5eee7bcd924b7addb1a0b2ce8e1f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:47 +0000
Subject: [PATCH 062/110] fix: data tables skip states that have no value yet

A state allowed to start without a value made create_table raise a KeyError.
---
 src/upstage_des/data_utils/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index b4eef68..b843022 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -101,6 +101,9 @@ def _actor_state_data(
     for state_name, state in actor._state_defs.items():
         if skip_locations and isinstance(state, LOCATION_TYPES):
             continue
+        if state_name not in actor.__dict__:
+            # Allowed to have no default, and not set yet
+            continue
         _value = actor.__dict__[state_name]
         is_active = isinstance(state, ActiveState)
         is_prefilled = any(key.startswith(f"{state_name}.") for key in actor._state_histories)
-- 
2.43.0


From 5cbeaecb9ea4af947b4f1198d8225844f812732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:49 +0000
Subject: [PATCH 063/110] fix: location table columns come from all actors

The columns were those of the last actor, even if it had no locations,
and no actors at all was an error.
---
 src/upstage_des/data_utils/data_utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index b843022..9a9655f 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -152,10 +152,10 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
 
     Returns:
         list[LOCATION_DATA_ROW]: Time and XYZ/LLA data.
-        list[str]: name of XYZ/LLA
+        list[str]: name of XYZ/LLA, or empty if there are no locations
     """
     data: list[LOCATION_DATA_ROW] = []
-    is_xyz = True
+    is_xyz: bool | None = None
     name, kind = actor.name, actor.__class__.__name__
     for state_name, state_data in actor._state_histories.items():
         _state = actor._state_defs.get(state_name, None)
@@ -174,7 +174,10 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
                 is_xyz = False
             elif isinstance(value, CartesianLocation):
                 row = (name, kind, state_name, time, value.x, value.y, value.z, active_value)
+                is_xyz = True
             data.append(cast(LOCATION_DATA_ROW, row))
+    if is_xyz is None:
+        return data, []
     cols = ["X", "Y", "Z"] if is_xyz else ["Lat", "Lon", "Alt"]
     return data, cols
 
@@ -258,7 +261,9 @@ def create_location_table() -> tuple[list[LOCATION_DATA_ROW], list[str]]:
     """
     _base = UpstageBase()
     data: list[LOCATION_DATA_ROW] = []
+    cols = ["X", "Y", "Z"]
     for actor in _base.get_actors():
-        _data, cols = _actor_location_data(actor)
+        _data, _cols = _actor_location_data(actor)
         data.extend(_data)
+        cols = _cols or cols
     return data, COLUMN_NAMES + cols + [ACTIVATION_STATUS_COL]
-- 
2.43.0


From 36866e63886f3f779b45b4102e377b05ee8762e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:52 +0000
Subject: [PATCH 064/110] fix: plain states holding locations are in the
 location table

Only the changing location states were recognized, so UP.State holding
locations was in the general table and never in the location table.
---
 src/upstage_des/data_utils/data_utils.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 9a9655f..fd807a6 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -11,6 +11,7 @@ from upstage_des.states import (
     ActiveStatus,
     CartesianLocationChangingState,
     GeodeticLocationChangingState,
+    State,
     _DictionaryProxy,
 )
 
@@ -68,6 +69,21 @@ def _state_history_to_table(
     return data
 
 
+def _is_location_state(state: State | None, value: Any) -> bool:
+    """Test if a state holds locations.
+
+    Args:
+        state (State | None): The state definition, if there is one.
+        value (Any): The state's value.
+
+    Returns:
+        bool: If it is a location changing state or any other state that holds a location.
+    """
+    return isinstance(state, LOCATION_TYPES) or (
+        state is not None and isinstance(value, ACTUAL_LOCATION)
+    )
+
+
 def _key_list(obj: Any) -> list[str]:
     if isinstance(obj, dict):
         return [str(x) for x in obj.keys()]
@@ -99,12 +115,12 @@ def _actor_state_data(
     name, kind = actor.name, actor.__class__.__name__
 
     for state_name, state in actor._state_defs.items():
-        if skip_locations and isinstance(state, LOCATION_TYPES):
-            continue
         if state_name not in actor.__dict__:
             # Allowed to have no default, and not set yet
             continue
         _value = actor.__dict__[state_name]
+        if skip_locations and _is_location_state(state, _value):
+            continue
         is_active = isinstance(state, ActiveState)
         is_prefilled = any(key.startswith(f"{state_name}.") for key in actor._state_histories)
         if state_name in actor._state_histories:
@@ -159,7 +175,7 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
     name, kind = actor.name, actor.__class__.__name__
     for state_name, state_data in actor._state_histories.items():
         _state = actor._state_defs.get(state_name, None)
-        if not isinstance(_state, LOCATION_TYPES):
+        if not _is_location_state(_state, actor.__dict__.get(state_name)):
             continue
         value: ACTUAL_LOCATION | ActiveStatus
         is_active = isinstance(_state, ActiveState)
-- 
2.43.0


From 8a9a7a941b1f5feea7194e2ee28f4d887bfdd439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:16 +0000
Subject: [PATCH 065/110] fix: activation status marks every row of an expanded
 value

A value with several attributes makes several rows, of which only the last
was marked, and one with none made the status mark an earlier value.
---
 src/upstage_des/data_utils/data_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index fd807a6..ad128bb 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -48,10 +48,12 @@ def _state_history_to_table(
     """
     data: list[STATE_DATA_ROW] = []
     active_value = "inactive" if is_active else None
+    rows: list[STATE_DATA_ROW] = []
     for time, value in hist:
         if isinstance(value, ActiveStatus):
-            row = data.pop(-1)
-            rows = [tuple(list(row[:-1]) + [value.name])]
+            # The status applies to all the rows of the value before it
+            del data[len(data) - len(rows) :]
+            rows = [(*row[:-1], value.name) for row in rows]
             active_value = "active" if value.name == "activating" else "inactive"
         elif is_dataclass(value) and not isinstance(value, type):
             rows = [
-- 
2.43.0


From 60d577730ebf7d2e0aaca19c9fd2697b25580d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:18 +0000
Subject: [PATCH 066/110] fix: monitoring resources in a MultiStoreState belong
 to their actor

They were in the table as unattached resources, with no actor or key.
---
 src/upstage_des/data_utils/data_utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index ad128bb..36476a4 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -11,6 +11,7 @@ from upstage_des.states import (
     ActiveStatus,
     CartesianLocationChangingState,
     GeodeticLocationChangingState,
+    MultiStoreState,
     State,
     _DictionaryProxy,
 )
@@ -143,6 +144,16 @@ def _actor_state_data(
         elif hasattr(_value, "_quantities"):
             resources.append(_value)
             data.extend(_state_history_to_table(name, kind, state_name, False, _value._quantities))
+        elif isinstance(state, MultiStoreState):
+            for key, store in _value.items():
+                sname = f"{state_name}.{key}"
+                if hasattr(store, "_quantities"):
+                    resources.append(store)
+                    data.extend(
+                        _state_history_to_table(name, kind, sname, False, store._quantities)
+                    )
+                elif save_static:
+                    data.append((name, kind, sname, 0.0, store, STATIC_STATE))
         elif save_static:
             the_value = getattr(actor, state_name)
             if isinstance(the_value, _DictionaryProxy):
-- 
2.43.0


From 0f40eb0cdea3766672d991fc3f5f52614f5219af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:19 +0000
Subject: [PATCH 067/110] fix: static dataclass states are in the table by
 attribute

The table held the state's proxy, which keeps changing with the state.
---
 src/upstage_des/data_utils/data_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 36476a4..2c07c19 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -13,7 +13,7 @@ from upstage_des.states import (
     GeodeticLocationChangingState,
     MultiStoreState,
     State,
-    _DictionaryProxy,
+    _KeyValueBase,
 )
 
 ACTUAL_LOCATION = GeodeticLocation | CartesianLocation
@@ -156,11 +156,11 @@ def _actor_state_data(
                     data.append((name, kind, sname, 0.0, store, STATIC_STATE))
         elif save_static:
             the_value = getattr(actor, state_name)
-            if isinstance(the_value, _DictionaryProxy):
+            if isinstance(state, _KeyValueBase):
                 data.extend(
                     [
                         (name, kind, f"{state_name}.{k}", 0.0, v, STATIC_STATE)
-                        for k, v in _value.items()
+                        for k, v in state._get_keys_values(actor)
                     ]
                 )
             else:
-- 
2.43.0


From 45159170311e26c15cfa8bdec63e32aeba1dded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:21 +0000
Subject: [PATCH 068/110] fix: data tables have every recorded key and
 recording function

The values of recording functions were left out. Keys that were removed from
a dictionary state lost their history, and keys added unrecorded raised an
AssertionError, because the keys came from the dictionary and not the history.
---
 src/upstage_des/data_utils/data_utils.py | 35 ++++++++++++------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 2c07c19..15281b8 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -1,6 +1,6 @@
 """Utilities for gathering all recorded simulation data."""
 
-from dataclasses import asdict, fields, is_dataclass
+from dataclasses import asdict, is_dataclass
 from typing import Any, cast
 
 from upstage_des.actor import Actor
@@ -87,14 +87,6 @@ def _is_location_state(state: State | None, value: Any) -> bool:
     )
 
 
-def _key_list(obj: Any) -> list[str]:
-    if isinstance(obj, dict):
-        return [str(x) for x in obj.keys()]
-    if is_dataclass(obj):
-        return [f.name for f in fields(obj)]
-    raise ValueError(f"Unexpected data type for state history: {obj}")
-
-
 def _actor_state_data(
     actor: Actor,
     skip_locations: bool = True,
@@ -116,26 +108,31 @@ def _actor_state_data(
     data: list[STATE_DATA_ROW] = []
     resources: list[Any] = []
     name, kind = actor.name, actor.__class__.__name__
+    rec_names = [n for s in actor._state_defs.values() for _, n in s._recording_functions]
 
     for state_name, state in actor._state_defs.items():
         if state_name not in actor.__dict__:
             # Allowed to have no default, and not set yet
             continue
         _value = actor.__dict__[state_name]
-        if skip_locations and _is_location_state(state, _value):
-            continue
         is_active = isinstance(state, ActiveState)
-        is_prefilled = any(key.startswith(f"{state_name}.") for key in actor._state_histories)
-        if state_name in actor._state_histories:
+        keys = []
+        if isinstance(state, _KeyValueBase):
+            keys = [
+                k
+                for k in actor._state_histories
+                if k.startswith(f"{state_name}.") and k not in rec_names
+            ]
+        if skip_locations and _is_location_state(state, _value):
+            pass
+        elif state_name in actor._state_histories:
             data.extend(
                 _state_history_to_table(
                     name, kind, state_name, is_active, actor._state_histories[state_name]
                 )
             )
-        elif is_prefilled:
-            for key in _key_list(_value):
-                sname = f"{state_name}.{key}"
-                assert sname in actor._state_histories
+        elif keys:
+            for sname in keys:
                 data.extend(
                     _state_history_to_table(
                         name, kind, sname, is_active, actor._state_histories[sname]
@@ -166,6 +163,10 @@ def _actor_state_data(
             else:
                 data.append((name, kind, state_name, 0.0, the_value, STATIC_STATE))
 
+        for _, rec_name in state._recording_functions:
+            hist = actor._state_histories.get(rec_name, [])
+            data.extend(_state_history_to_table(name, kind, rec_name, False, hist))
+
     return data, resources
 
 
-- 
2.43.0


From e3f62ced6428a305a3e146bf2e649023f0ef51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:09 +0000
Subject: [PATCH 069/110] fix: a leg that misses a sensor still takes its time

---
 src/upstage_des/motion/cartesian_model.py | 2 +-
 src/upstage_des/motion/geodetic_model.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index a58c5d7..8dc19e5 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -126,7 +126,7 @@ def cartesian_linear_intersection(
         speed,
     )
     if not intersections or min(times) > path_time:
-        return [], [], ["BAD", "BAD"], -1.0
+        return [], [], ["BAD", "BAD"], path_time
 
     # filter out intersections beyond the path length
     idxs = sorted(range(len(times)), key=lambda i: times[i])
diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index a01ab3d..aa717f3 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -75,7 +75,7 @@ def subdivide_intersection(
     )
 
     if not intersect_locs:
-        return [], [], ["Bad", "Bad"], 0.0
+        return [], [], ["Bad", "Bad"], path_time
 
     # convert the data to a more useful format
     intersections: list[GeodeticLocation] = []
@@ -152,7 +152,7 @@ def analytical_intersection(
     # no intersection
     if point_results is None:
         # return matches subdivide_intersection results
-        return [], [], ["Bad", "Bad"], -1.0
+        return [], [], ["Bad", "Bad"], path_time
 
     points, distances = point_results
     # get points, times, and types
-- 
2.43.0


From ff0d84e31d5a9adfb5fab1a0f564f147aeb8fe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:59 +0000
Subject: [PATCH 070/110] fix: a Cartesian leg of no length crosses nothing

---
 src/upstage_des/motion/cartesian_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index 8dc19e5..10959b2 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -70,6 +70,9 @@ def ray_intersection(
     c = _vector_norm(P1) ** 2 - 1
     b = 2 * _vector_dot(P1, v1)
     a = _vector_norm(v1) ** 2
+    if a == 0:
+        # Not going anywhere, so nothing is crossed.
+        return [], []
     roots = _roots(a, b, c)
     possible = [r for r in roots if r >= 0]
 
-- 
2.43.0


From 58e5b32d7cec48d75b48dec8897667a333d39881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 071/110] fix: crossings use heights in the same unit as
 distances

---
 src/upstage_des/motion/cartesian_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index 10959b2..6b262c6 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -109,8 +109,8 @@ def cartesian_linear_intersection(
     path_time = path_dist / speed
     dist_start = sensor_location - start
     dist_finish = sensor_location - finish
-    start_tup = (start.x, start.y, start.z)
-    finish_tup = (finish.x, finish.y, finish.z)
+    start_tup = start._as_array()
+    finish_tup = finish._as_array()
 
     # for start and finish inside, we can skip the intersection math
     start_inside = dist_start <= sensor_radius
@@ -120,7 +120,7 @@ def cartesian_linear_intersection(
         the_times = [0, path_time]
         return inters, the_times, ["START_INSIDE", "END_INSIDE"], path_time
 
-    sensor_location_tup = (sensor_location.x, sensor_location.y, sensor_location.z)
+    sensor_location_tup = sensor_location._as_array()
     intersections, times = ray_intersection(
         start_tup,
         finish_tup,
-- 
2.43.0


From 7de0690df086860f2b2dddc4799992ea5a114692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:39 +0000
Subject: [PATCH 072/110] fix: stopping a mover that was hidden and shown on
 its way

---
 src/upstage_des/motion/motion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 8c3a4a9..00e6adf 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -143,8 +143,12 @@ class SensorMotionManager(UpstageBase):
                     proc.interrupt()
             del self._events[mover]
 
-        # clear the mover references
-        del self._movers[mover]
+        if from_not_detectable:
+            # Still on its path, but not looked for until it starts again
+            self._movers[mover] = (0.0, [], 0.0)
+        else:
+            # clear the mover references
+            del self._movers[mover]
         return None
 
     def _mover_not_detectable(self, mover: Actor) -> None:
-- 
2.43.0


From 40a814dcd1356433874b4d381478f15239c0b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:37 +0000
Subject: [PATCH 073/110] fix: paths that touch the edge of a sensor's range

---
 src/upstage_des/motion/cartesian_model.py | 47 ++++++++++++-----------
 src/upstage_des/motion/motion.py          |  5 ++-
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index 6b262c6..ff54735 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -128,26 +128,29 @@ def cartesian_linear_intersection(
         sensor_radius,
         speed,
     )
-    if not intersections or min(times) > path_time:
-        return [], [], ["BAD", "BAD"], path_time
-
-    # filter out intersections beyond the path length
-    idxs = sorted(range(len(times)), key=lambda i: times[i])
-    inters = [CartesianLocation(*intersections[i]) for i in idxs if times[i] <= path_time]
-    times = [times[i] for i in idxs if times[i] <= path_time]
-    type_start = "START_INSIDE" if start_inside else "ENTER"
-    type_end = "END_INSIDE" if finish_inside else "EXIT"
+    inters = [CartesianLocation(*loc) for loc in intersections]
+    # Which ends are inside says what is crossed. Rounding may have it otherwise
+    # when an end is at the edge, and puts the crossing at that end.
     if start_inside:
-        inters = [start] + inters
-        times = [0] + times
-    if finish_inside:
-        inters = inters + [finish]
-        times = times + [path_time]
-    if len(inters) != 2:
-        raise MotionAndDetectionError(
-            f"There should be two intersections, not {len(inters)} ({inters})"
-        )
-    if len(times) != 2:
-        raise MotionAndDetectionError("There should be two time intersections")
-
-    return inters, times, [type_start, type_end], path_time
+        inters = [start, inters[-1] if inters else start]
+        times = [0.0, times[-1] if times else 0.0]
+    elif finish_inside:
+        if not times:
+            inters, times = [finish], [path_time]
+        elif len(times) == 1:
+            inters, times = [start], [0.0]
+        inters = [inters[0], finish]
+        times = [times[0], path_time]
+    else:
+        if len(times) == 1:
+            inters, times = [start] + inters, [0.0] + times
+        # A path that only touches the sphere doesn't enter it
+        if not times or times[0] >= min(times[1], path_time):
+            return [], [], ["BAD", "BAD"], path_time
+    times = [min(t, path_time) for t in times]
+
+    types = [
+        "START_INSIDE" if start_inside else "ENTER",
+        "END_INSIDE" if finish_inside else "EXIT",
+    ]
+    return inters, times, types, path_time
diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 00e6adf..139b8ae 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -347,9 +347,10 @@ class SensorMotionManager(UpstageBase):
         if second_kind != "EXIT":
             return None
 
-        end_time_from_now = second_time - self.env.now
-        if end_time_from_now <= 0:
+        if second_time < first_time:
             raise MotionAndDetectionError("Detection end time is less than detection start")
+        # The clock may have gone past a second time that is next to the first
+        end_time_from_now = max(0.0, second_time - self.env.now)
 
         try:
             yield self.env.timeout(end_time_from_now)
-- 
2.43.0


From 7b38383be67971005aedc52ebb3bd3bf58650887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:44 +0000
Subject: [PATCH 074/110] fix: rounding of times at a waypoint at the edge of a
 sensor's range

---
 src/upstage_des/motion/motion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 139b8ae..e858cfd 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -248,7 +248,8 @@ class SensorMotionManager(UpstageBase):
 
                     inter_data.pop()
                     continue
-                inter_data.append((typ, start_time + elapsed_time + t, inter))
+                # In this order, a time on the next leg can't round to an earlier one
+                inter_data.append((typ, start_time + (elapsed_time + t), inter))
             elapsed_time += path_time
 
         # pair off the in/out
-- 
2.43.0


From bfb2aaa2ecce4a4465baf366696d54d9d702d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:40 +0000
Subject: [PATCH 075/110] fix: tell a sensor when a mover starts elsewhere than
 where it was in view

---
 src/upstage_des/motion/motion.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index e858cfd..2ee60ce 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -363,6 +363,19 @@ class SensorMotionManager(UpstageBase):
         self._remove_from_view(mover, sensor)
         return None
 
+    def _notify_left(self, mover: Actor, sensor: SensorType) -> Generator[SimpyEvent, Any, None]:
+        """Notify a sensor about a mover that was moved out of range while it stood.
+
+        Args:
+            mover (Actor): Mover
+            sensor (Actor): Sensor
+        """
+        if sensor in self._in_view.get(mover, {}):
+            self._remove_from_view(mover, sensor)
+            sensor.entity_exited_range(mover)
+        return None
+        yield
+
     def _schedule(
         self,
         mover: Actor,
@@ -437,6 +450,11 @@ class SensorMotionManager(UpstageBase):
         for m in movers:
             for s in sensors:
                 inter_pairs = self._process_mover_sensor_pair(m, s)
+                starts_inside = bool(inter_pairs) and inter_pairs[0][0][0] == "START_INSIDE"
+                if not starts_inside and sensor_list is None and s in self._in_view.get(m, {}):
+                    self._events.setdefault(m, []).append(
+                        (s, self.env.process(self._notify_left(m, s)))
+                    )
                 for pair in inter_pairs:
                     self._schedule(m, s, pair)
 
-- 
2.43.0


From e801a98df86704595704fb4bd318044444fdc026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:27 +0000
Subject: [PATCH 076/110] fix: sensors may stop or hide the mover they are told
 of

---
 src/upstage_des/motion/motion.py | 42 +++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 2ee60ce..bb6bf32 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -139,7 +139,8 @@ class SensorMotionManager(UpstageBase):
         # in case a new sensor pops up
         if mover in self._events:
             for _, proc in self._events.get(mover, []):
-                if proc.is_alive:
+                # A sensor may be stopping or hiding the mover it is told of
+                if proc.is_alive and proc is not self.env.active_process:
                     proc.interrupt()
             del self._events[mover]
 
@@ -160,13 +161,12 @@ class SensorMotionManager(UpstageBase):
         Args:
             mover (Actor): The mover.
         """
-        if mover in self._in_view:
-            for sensor in self._in_view[mover]:
-                # This will cause some old data to stick around, but that's
-                # instead of making new events to clear it out and then having
-                # to end those clearing events if this happens
-                sensor.entity_exited_range(mover)
-            del self._in_view[mover]
+        # It is out of view before anything is told so, and hides it again
+        for sensor in self._in_view.pop(mover, {}):
+            # This will cause some old data to stick around, but that's
+            # instead of making new events to clear it out and then having
+            # to end those clearing events if this happens
+            sensor.entity_exited_range(mover)
         # It is unsure if the user will stop the motion via a task first
         # or change detectability first
         self._stop_mover(mover, from_not_detectable=True)
@@ -306,6 +306,18 @@ class SensorMotionManager(UpstageBase):
             }
             self._debug_log.append(msg)
 
+    def _is_scheduled(self, mover: Actor) -> bool:
+        """Test if the active process still has to notify about a mover.
+
+        Args:
+            mover (Actor): Mover
+
+        Returns:
+            bool: If the mover is on the path the process was made for.
+        """
+        active = self.env.active_process
+        return any(proc is active for _, proc in self._events.get(mover, []))
+
     def _notify(
         self,
         mover: Actor,
@@ -330,6 +342,10 @@ class SensorMotionManager(UpstageBase):
         # times are absolute on input to this method
         notify_time_from_now = first_time - self.env.now
 
+        if not self._is_scheduled(mover):
+            self._end_notify(mover, sensor, "before it began")
+            return None
+
         if first_kind == "START_INSIDE" or notify_time_from_now <= 0:
             was_in = self._add_to_view(mover, sensor)
             if not was_in:
@@ -342,12 +358,16 @@ class SensorMotionManager(UpstageBase):
                 self._end_notify(mover, sensor, "before entry")
                 return None
 
-            sensor.entity_entered_range(mover)
             self._add_to_view(mover, sensor)
+            sensor.entity_entered_range(mover)
 
         if second_kind != "EXIT":
             return None
 
+        if not self._is_scheduled(mover):
+            self._end_notify(mover, sensor, "on entry")
+            return None
+
         if second_time < first_time:
             raise MotionAndDetectionError("Detection end time is less than detection start")
         # The clock may have gone past a second time that is next to the first
@@ -359,8 +379,8 @@ class SensorMotionManager(UpstageBase):
             self._end_notify(mover, sensor, "before exit")
             return None
 
-        sensor.entity_exited_range(mover)
         self._remove_from_view(mover, sensor)
+        sensor.entity_exited_range(mover)
         return None
 
     def _notify_left(self, mover: Actor, sensor: SensorType) -> Generator[SimpyEvent, Any, None]:
@@ -370,7 +390,7 @@ class SensorMotionManager(UpstageBase):
             mover (Actor): Mover
             sensor (Actor): Sensor
         """
-        if sensor in self._in_view.get(mover, {}):
+        if self._is_scheduled(mover) and sensor in self._in_view.get(mover, {}):
             self._remove_from_view(mover, sensor)
             sensor.entity_exited_range(mover)
         return None
-- 
2.43.0


From fea5f3e2a9e7e030c1a4ca333df1ba226f446fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:49 +0000
Subject: [PATCH 077/110] fix: courses between coincident points and along
 meridians

---
 src/upstage_des/motion/great_circle_calcs.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index ac940e2..80fa7ed 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -44,16 +44,13 @@ def get_course_rad(point1: GeodeticLocation, point2: GeodeticLocation) -> float:
     """
     point1 = point1.to_radians()
     point2 = point2.to_radians()
-    tcl: float
+    dlon = point2.lon - point1.lon
 
-    d = get_dist_rad(point1, point2)
-
-    if sin(point2.lon - point1.lon) < 0:
-        tcl = acos((sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat)))
-    else:
-        tcl = 2.0 * pi - acos(
-            (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
-        )
+    # As an arc tangent, which unlike an arc cosine has a value for coincident
+    # points and isn't upset by rounding along a meridian.
+    east = sin(dlon) * cos(point2.lat)
+    north = cos(point1.lat) * sin(point2.lat) - sin(point1.lat) * cos(point2.lat) * cos(dlon)
+    tcl: float = 2.0 * pi - atan2(east, north) % (2.0 * pi)
 
     return tcl
 
-- 
2.43.0


From c31eb421d237c17f2fac9ff8ddb99cbca4d07ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:09 +0000
Subject: [PATCH 078/110] fix: crossings of a great circle beyond the far side
 of the earth

---
 src/upstage_des/motion/great_circle_calcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index 80fa7ed..2ecf190 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -126,10 +126,12 @@ def get_great_circle_points(
     if dp:
         d1 = atd - dp
         d2 = atd + dp
+        # crossings behind may be past the far side of the earth instead
+        if d2 < 0:
+            d1, d2 = d1 + 2.0 * pi, d2 + 2.0 * pi
 
         # make sure we can get to first crossing
-        # if second cross is negative, both points are outside the D/dist radius
-        if dist_ab < d1 or d2 < 0:
+        if dist_ab < d1:
             return None
 
         p1 = get_pos_from_points_and_distance(point_a, point_b, d1)
-- 
2.43.0


From 43a54824071c840195675ac7b2655a359fe4700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:09 +0000
Subject: [PATCH 079/110] fix: analytical intersections of sloped, high and
 empty legs, at the mover's ground speed

---
 src/upstage_des/motion/geodetic_model.py | 33 ++++++++++++------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index aa717f3..6f67568 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -134,9 +134,16 @@ def analytical_intersection(
     finish_rad = finish.to_radians()
     sensor_location_rad = sensor_location.to_radians()
 
+    path_dist = get_dist_rad(start_rad, finish_rad)
+    # speeds are ground speeds
+    path_time = (path_dist * earth_rad) / speed
+
     # modify the sensor's radius to account for the altitude of the mover
-    average_path_height = (start.alt + finish.alt) / 2.0
+    average_path_height = (start.alt + finish.alt) / 2.0 - sensor_location.alt
     average_path_height_dist_units = unit_convert(average_path_height, altitude_units, dist_units)
+    if abs(average_path_height_dist_units) > sensor_radius:
+        # the mover passes over (or under) the sensor's range
+        return [], [], ["Bad", "Bad"], path_time
     adjusted_sensor_radius = sqrt(sensor_radius**2 - average_path_height_dist_units**2)
     sensor_radius_rad = adjusted_sensor_radius / earth_rad
 
@@ -146,8 +153,6 @@ def analytical_intersection(
     )
     dist_start = get_dist_rad(sensor_location_rad, start_rad)
     dist_finish = get_dist_rad(sensor_location_rad, finish_rad)
-    path_dist = get_dist_rad(start_rad, finish_rad)
-    path_time = (path_dist * earth_rad) / speed
 
     # no intersection
     if point_results is None:
@@ -159,7 +164,9 @@ def analytical_intersection(
     intersections = []
     times = []
     types = []
-    alt_change_per_dist = (finish.alt - start.alt) / path_dist  # altitude change per radian
+    alt_change_per_dist = 0.0
+    if path_dist > 0:
+        alt_change_per_dist = (finish.alt - start.alt) / path_dist  # altitude change per radian
 
     # check for start in the sensor range
     if dist_start < sensor_radius_rad:
@@ -170,11 +177,8 @@ def analytical_intersection(
         types.append("ENTER")
 
         # estimate intersection altitude assuming linear change
-        alt_1 = start.alt + (distances[0] / path_dist) * alt_change_per_dist
-        # adjust distance to account for average altitude from start to first intersection
-        d1_m = distances[0] * (
-            earth_rad + unit_convert(0.5 * (start.alt + alt_1), altitude_units, dist_units)
-        )
+        alt_1 = start.alt + distances[0] * alt_change_per_dist
+        d1 = distances[0] * earth_rad
 
         intersections.append(
             GeodeticLocation(
@@ -183,7 +187,7 @@ def analytical_intersection(
                 in_radians=True,
             ).to_degrees()
         )
-        times.append(d1_m / speed)
+        times.append(d1 / speed)
 
     # check for end in the sensor range
     if dist_finish < sensor_radius_rad:
@@ -195,13 +199,10 @@ def analytical_intersection(
         types.append("EXIT")
 
         # estimate intersection altitude assuming linear change
-        alt_2 = start.alt + (distances[1] / path_dist) * alt_change_per_dist
-        # adjust distance to account for average altitude from start to first intersection
-        d2_m = distances[1] * (
-            earth_rad + unit_convert(0.5 * (start.alt + alt_2), altitude_units, dist_units)
-        )
+        alt_2 = start.alt + distances[1] * alt_change_per_dist
+        d2 = distances[1] * earth_rad
 
         intersections.append(GeodeticLocation(*points[1], alt=alt_2, in_radians=True).to_degrees())
-        times.append(d2_m / speed)
+        times.append(d2 / speed)
 
     return intersections, times, types, path_time
-- 
2.43.0


From 92367315ef124b562b66ded8520cb78777958cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:26 +0000
Subject: [PATCH 080/110] fix: short legs can be searched for intersections

---
 src/upstage_des/geography/intersections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/geography/intersections.py b/src/upstage_des/geography/intersections.py
index 802d55e..29429f5 100644
--- a/src/upstage_des/geography/intersections.py
+++ b/src/upstage_des/geography/intersections.py
@@ -45,9 +45,9 @@ def _preprocess(
     while points <= 2:
         dist_between = dist_between / 2.0
         if dist_between < 100:
-            raise IntersectionError(
-                f"Intersetion Segment {start_lla} -> {finish_lla} is too small!"
-            )
+            # Too short to look at any closer
+            points = 3
+            break
         points = int(dist / dist_between) + 1
     ecef_point = earth.lla2ecef([point_lla])[0]
     assert len(ecef_point) == 3
-- 
2.43.0


From fd0e849881b381702a2f3507bf8379c0920719b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:10 +0000
Subject: [PATCH 081/110] fix: legs that the intersection model judges
 differently at their joint

---
 src/upstage_des/motion/motion.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index bb6bf32..cbf6c4a 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -235,21 +235,31 @@ class SensorMotionManager(UpstageBase):
                 radius,
             )
 
+            # The intersection model may see the end of one leg and the start of
+            # the next differently, in which case the range is crossed there.
+            was_inside = bool(inter_data) and inter_data[-1][0] == "END_INSIDE"
+            if was_inside and "START_INSIDE" not in types:
+                inter_data[-1] = ("EXIT", *inter_data[-1][1:])
+
             for (
                 inter,
                 t,
                 typ,
             ) in zip(intersections, times, types):
-                if inter_data and inter_data[-1][0] == "END_INSIDE":
-                    # drop that one since we are continuing on from that point
+                if typ == "START_INSIDE" and was_inside:
+                    # drop the last one since we are continuing on from that point
                     # and ignore this current one since it's inside already
-                    if typ != "START_INSIDE":
-                        raise SimulationError("START_INSIDE must follow END_INSIDE")
-
                     inter_data.pop()
                     continue
+                if typ == "START_INSIDE" and i > 0:
+                    typ = "ENTER"
                 # In this order, a time on the next leg can't round to an earlier one
-                inter_data.append((typ, start_time + (elapsed_time + t), inter))
+                when = start_time + (elapsed_time + t)
+                if typ == "ENTER" and inter_data and when <= inter_data[-1][1]:
+                    # it never left
+                    inter_data.pop()
+                    continue
+                inter_data.append((typ, when, inter))
             elapsed_time += path_time
 
         # pair off the in/out
-- 
2.43.0


From c0c004f33918ed633a2659a07b623dcfb39d771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:52 +0000
Subject: [PATCH 082/110] fix: actors the stepped manager does not know can
 become detectable

---
 src/upstage_des/motion/stepped_motion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index b99e363..0591e18 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -297,7 +297,9 @@ class SteppedMotionManager(UpstageBase):
         Could be called for any reason; use this feature to alert sensors that
         an object should be considered by that sensor.
         """
-        self._run_detectable(detectable_req=[detectable])
+        # It may be neither added nor have moved yet
+        if detectable in self._detectables:
+            self._run_detectable(detectable_req=[detectable])
 
     def _start_mover(self, mover: Actor, speed: float, waypoints: list[LOC_TYPES]) -> None:
         # we don't need this method, except to hook into motion states
-- 
2.43.0


From 8dd692febc0eaed09bb5eaf8c327bee140541746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:14 +0000
Subject: [PATCH 083/110] fix: the stepped manager can run again after it shut
 down

---
 src/upstage_des/motion/stepped_motion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 0591e18..dea51c4 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -198,6 +198,8 @@ class SteppedMotionManager(UpstageBase):
             if self._only_event_test():
                 n_empty += 1
                 if n_empty >= self._max_empty_events:
+                    # A later run, or mover, may start it again
+                    self._is_running = False
                     return
             else:
                 n_empty = 0
-- 
2.43.0


From 2458e6fc8d0ae9bbdc40f9f2455937d261334764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:56 +0000
Subject: [PATCH 084/110] fix: the stepped manager takes the detectability that
 the docs ask for

---
 src/upstage_des/motion/stepped_motion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index dea51c4..a21ee3b 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -121,6 +121,9 @@ class SteppedMotionManager(UpstageBase):
         detect_state = detectable._get_detection_state()
         if detect_state is None:
             return True
+        if isinstance(detect_state, bool):
+            # Not an actor, see the class docstring
+            return detect_state
         visibility: bool = getattr(detectable, detect_state)
         return visibility
 
-- 
2.43.0


From e1d3cd9bc9b4db0b5ec8994d5442c5ea304e8fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 085/110] fix: stopped movers stay detectable to the stepped
 manager

---
 src/upstage_des/motion/stepped_motion.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index a21ee3b..fd70d8c 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -323,7 +323,5 @@ class SteppedMotionManager(UpstageBase):
 
     def _stop_mover(self, mover: Actor) -> None:
         # we don't need this method, except to hook into motion states
-        # It may be useful for ending detections, but the user should
-        # handle that themselves
-        if mover in self._detectables:
-            del self._detectables[mover]
+        # A mover that stops can still be seen where it stands, and left behind
+        pass
-- 
2.43.0


From 404b19ae6d2331aceb8ac8228be4364314d509f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:57 +0000
Subject: [PATCH 086/110] fix: undetectable things do not stay in, or come
 into, the stepped manager's view

---
 src/upstage_des/motion/stepped_motion.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index fd70d8c..d4d97ed 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -163,13 +163,18 @@ class SteppedMotionManager(UpstageBase):
         sensor_locs = [self._sensors[s][1]() for s in sensor_req]
 
         detectable_req = list(self._detectables) if detectable_req is None else detectable_req
-        detectable_req = [d for d in detectable_req if self._test_detect(d)]
-        detect_locs = [self._detectables[d]() for d in detectable_req]
+        detect_locs = [
+            self._detectables[d]() if self._test_detect(d) else None for d in detectable_req
+        ]
 
         for sensor, radius, loc in zip(sensor_req, sensor_radii, sensor_locs):
             for detectable, d_loc in zip(detectable_req, detect_locs):
                 if detectable is sensor:
                     continue
+                # A sensor that was told of it may have made it undetectable
+                if d_loc is None or not self._test_detect(detectable):
+                    self._update_awareness(sensor, detectable, False)
+                    continue
                 visible = self._detect_dist(loc, radius, d_loc, sensor)
                 self._do_log((self.env.now, sensor, loc, detectable, d_loc))
                 self._update_awareness(sensor, detectable, visible)
-- 
2.43.0


From 95e2c2e07a049d94c621abfb7edce8260a166e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 087/110] fix: sensors told by the stepped manager that an
 object is undetectable can change that

---
 src/upstage_des/motion/stepped_motion.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index d4d97ed..7bd97ad 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -293,13 +293,10 @@ class SteppedMotionManager(UpstageBase):
         an object should no longer be considered by that sensor.
         """
         # TODO: key on detectable may make it faster
-        to_rem = []
-        for sensor, detect in self._in_view:
-            if detect is detectable:
-                sensor.entity_exited_range(detectable)
-                to_rem.append((sensor, detect))
-        for pair in to_rem:
-            del self._in_view[pair]
+        # A sensor may hide the object that it is told of, or others
+        sensors = [sensor for sensor, detect in self._in_view if detect is detectable]
+        for sensor in sensors:
+            self._update_awareness(sensor, detectable, False)
 
     def _mover_became_detectable(self, detectable: Actor) -> None:
         """Called via DetectabilityState state when an object becomes detectable.
-- 
2.43.0


From b7372d1937fcd7f7867edc274995d7ea33033304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:27 +0000
Subject: [PATCH 088/110] fix: an understudy does not take tasks from the real
 actor's queues

---
 src/upstage_des/actor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 6978dbd..c94fb51 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1037,7 +1037,8 @@ Args:
         for name, data in knowledge.items():
             clone._knowledge[name] = copy(data)
 
-        clone._task_queue = copy(self._task_queue)
+        # The understudy works through queues of its own
+        clone._task_queue = {name: list(queue) for name, queue in self._task_queue.items()}
         clone._task_networks = copy(self._task_networks)
 
         if clone._debug_logging:
-- 
2.43.0


From 82b43cef8cdc181992bf17446e92c7f1190988e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:27 +0000
Subject: [PATCH 089/110] fix: actors with properties or class methods can be
 cloned

Class attributes are found through the class, so there is no need to set
them on the clone, which fails for properties and hides class methods.
---
 src/upstage_des/actor.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index c94fb51..0a453f7 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1013,18 +1013,6 @@ Args:
         )
         clone.env = new_env
 
-        ignored_attributes = list(states.keys()) + ["env", "stage"]
-
-        for attribute_name, attribute in self.__class__.__dict__.items():
-            if not any(
-                (
-                    attribute_name in ignored_attributes,
-                    attribute_name.startswith("_"),
-                    callable(attribute),
-                )
-            ):
-                setattr(clone, attribute_name, attribute)
-
         # update the state histories
         for state_name in self._state_defs:
             if state_name in self._state_histories:
-- 
2.43.0


From 4755f7ee09215c8f2532baf9097fe993dfd5d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:11 +0000
Subject: [PATCH 090/110] fix: understudies and their resources are not
 entities of the simulation

Clones were left in the lists of actors, entity groups and monitored
resources, and so in the data tables.
---
 src/upstage_des/actor.py | 51 ++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 0a453f7..1cc63f3 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -17,11 +17,13 @@ from simpy import Process
 from upstage_des.events import Event
 
 from .base import (
+    ENTITY_CONTEXT_VAR,
     SPECIAL_ENTITY_CONTEXT_VAR,
     MockEnvironment,
     NamedUpstageEntity,
     SettableEnv,
     SimulationError,
+    SpecialContexts,
     UpstageError,
 )
 from .data_types import CartesianLocation, GeodeticLocation
@@ -961,6 +963,23 @@ Args:
         )
         return understudy
 
+    def _clone_states(self) -> dict[str, Any]:
+        """Copy the values of the states for a clone.
+
+        Returns:
+            dict[str, Any]: State names and values.
+        """
+        states: dict[str, Any] = {}
+        for state in self.states:
+            state_obj = self._state_defs[state]
+            if isinstance(state_obj, ResourceState):
+                states[state] = state_obj._make_clone(self, getattr(self, state))
+            elif isinstance(state_obj, _KeyValueBase):
+                states[state] = state_obj._make_clone(self)
+            else:
+                states[state] = copy(getattr(self, state))
+        return states
+
     def clone(
         self,
         new_env: MockEnvironment | None = None,
@@ -992,25 +1011,23 @@ Args:
         knowledge = {} if knowledge is None else knowledge
         new_env = MockEnvironment.mock(self.env) if new_env is None else new_env
 
-        states: dict[str, Any] = {}
-        for state in self.states:
-            state_obj = self._state_defs[state]
-            if isinstance(state_obj, ResourceState):
-                states[state] = state_obj._make_clone(self, getattr(self, state))
-            elif isinstance(state_obj, _KeyValueBase):
-                states[state] = state_obj._make_clone(self)
-            else:
-                states[state] = copy(getattr(self, state))
-        states.update(new_states)
-
         self._num_clones += 1
 
-        clone = self.__class__(
-            name=self.name + f" [CLONE {self._num_clones}]",
-            debug_log=self._debug_logging,
-            debug_log_time=self._debug_log_time,
-            **states,
-        )
+        # An understudy is not one of the simulation's entities
+        entities = ENTITY_CONTEXT_VAR.set({})
+        special = SPECIAL_ENTITY_CONTEXT_VAR.set(SpecialContexts())
+        try:
+            states = self._clone_states()
+            states.update(new_states)
+            clone = self.__class__(
+                name=self.name + f" [CLONE {self._num_clones}]",
+                debug_log=self._debug_logging,
+                debug_log_time=self._debug_log_time,
+                **states,
+            )
+        finally:
+            ENTITY_CONTEXT_VAR.reset(entities)
+            SPECIAL_ENTITY_CONTEXT_VAR.reset(special)
         clone.env = new_env
 
         # update the state histories
-- 
2.43.0


From 1d3da2e06f5b0aa06ab3ff3d7729d910500ac15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:32 +0000
Subject: [PATCH 091/110] fix: actors with states that can't be initialized, or
 are not set yet, can be cloned

---
 src/upstage_des/actor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 1cc63f3..d3a32d8 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -976,7 +976,8 @@ Args:
                 states[state] = state_obj._make_clone(self, getattr(self, state))
             elif isinstance(state_obj, _KeyValueBase):
                 states[state] = state_obj._make_clone(self)
-            else:
+            elif state in self.__dict__ or state in self._mimic_states:
+                # Otherwise it's an allowed `None` default that was never set
                 states[state] = copy(getattr(self, state))
         return states
 
@@ -1018,6 +1019,11 @@ Args:
         special = SPECIAL_ENTITY_CONTEXT_VAR.set(SpecialContexts())
         try:
             states = self._clone_states()
+            uninitialized = {
+                state: states.pop(state)
+                for state in list(states)
+                if self._state_defs[state]._no_init
+            }
             states.update(new_states)
             clone = self.__class__(
                 name=self.name + f" [CLONE {self._num_clones}]",
@@ -1028,6 +1034,7 @@ Args:
         finally:
             ENTITY_CONTEXT_VAR.reset(entities)
             SPECIAL_ENTITY_CONTEXT_VAR.reset(special)
+        clone.__dict__.update(uninitialized)
         clone.env = new_env
 
         # update the state histories
-- 
2.43.0


From 37671dcd894c1b00035961ca085ffa4d6f6252b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:43 +0000
Subject: [PATCH 092/110] fix: an understudy's detectability is not reported to
 the motion manager

---
 src/upstage_des/states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 93bfcf4..d96aa92 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -378,6 +378,8 @@ class DetectabilityState(State[bool]):
         if self.name not in instance.__dict__:
             was_set = False
         super().__set__(instance, value)
+        if getattr(instance, "_is_rehearsing", False):
+            return
         if hasattr(instance.stage, "motion_manager") and was_set:
             mgr = instance.stage.motion_manager
             if not value:
-- 
2.43.0


From 91744f3334c040cd5b5d45af9e2ae11ab2023b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:43 +0000
Subject: [PATCH 093/110] fix: rehearsing does not set, record or broadcast the
 real actor's active states

Cloning read the states of the actor, which records the values of active and
mimicking states and tells the nucleus, interrupting real networks.
---
 src/upstage_des/actor.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index d3a32d8..e14061d 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -963,12 +963,39 @@ Args:
         )
         return understudy
 
+    def _stand_in(self, made: dict["Actor", "Actor"]) -> Self:
+        """Make a stand-in whose states can be read without touching this actor.
+
+        Reading an active or mimicking state sets it, which records the value
+        and tells the nucleus.
+
+        Args:
+            made (dict[Actor, Actor]): The stand-ins made so far.
+
+        Returns:
+            Actor: The stand-in.
+        """
+        stand_in = object.__new__(type(self))
+        made[self] = stand_in
+        stand_in.__dict__.update(self.__dict__)
+        stand_in._is_rehearsing = True
+        stand_in._state_listener = None
+        stand_in._state_histories = {}
+        stand_in._state_recorders = {}
+        stand_in._active_states = {k: dict(v) for k, v in self._active_states.items()}
+        stand_in._mimic_states = {
+            state: (made[actor] if actor in made else actor._stand_in(made), their_state)
+            for state, (actor, their_state) in self._mimic_states.items()
+        }
+        return stand_in
+
     def _clone_states(self) -> dict[str, Any]:
         """Copy the values of the states for a clone.
 
         Returns:
             dict[str, Any]: State names and values.
         """
+        reader = self._stand_in({})
         states: dict[str, Any] = {}
         for state in self.states:
             state_obj = self._state_defs[state]
@@ -978,7 +1005,7 @@ Args:
                 states[state] = state_obj._make_clone(self)
             elif state in self.__dict__ or state in self._mimic_states:
                 # Otherwise it's an allowed `None` default that was never set
-                states[state] = copy(getattr(self, state))
+                states[state] = copy(getattr(reader, state))
         return states
 
     def clone(
-- 
2.43.0


From 73ea0a28e3737e2033d010cb685a62a3038e9565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:55 +0000
Subject: [PATCH 094/110] fix: an understudy has the histories of keys and
 recording functions, and their recorders

---
 src/upstage_des/actor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index e14061d..dc715b4 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1064,10 +1064,11 @@ Args:
         clone.__dict__.update(uninitialized)
         clone.env = new_env
 
-        # update the state histories
-        for state_name in self._state_defs:
-            if state_name in self._state_histories:
-                clone._state_histories[state_name] = deepcopy(self._state_histories[state_name])
+        # update the histories, including those of keys and recording functions
+        clone._state_histories = {
+            name: list(history) for name, history in self._state_histories.items()
+        }
+        clone._state_recorders = deepcopy(self._state_recorders)
 
         clone._knowledge = {}
         for name, data in self._knowledge.items():
-- 
2.43.0


From 0435ff72bb3552b8c2671402a83457899a20685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:05 +0000
Subject: [PATCH 095/110] fix: an understudy succeeding a knowledge event
 leaves the real event alone

---
 src/upstage_des/actor.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index dc715b4..ce7329e 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1071,11 +1071,11 @@ Args:
         clone._state_recorders = deepcopy(self._state_recorders)
 
         clone._knowledge = {}
-        for name, data in self._knowledge.items():
-            clone._knowledge[name] = copy(data)
-
-        for name, data in knowledge.items():
+        for name, data in {**self._knowledge, **knowledge}.items():
             clone._knowledge[name] = copy(data)
+            if isinstance(data, Event) and not data._event.triggered:
+                # Nothing real waits on the understudy's event
+                clone._knowledge[name].reset()
 
         # The understudy works through queues of its own
         clone._task_queue = {name: list(queue) for name, queue in self._task_queue.items()}
@@ -1247,6 +1247,10 @@ Args:
         if not isinstance(event, Event):
             raise SimulationError(f"Knowledge {name} is not an Event.")
         self.clear_knowledge(name, "actor.succeed_knowledge_event")
+        if self._is_rehearsing:
+            # Nothing waits on an understudy's event, so leave the real clock alone
+            event._payload = kwargs
+            return
         event.succeed(**kwargs)
 
     def get_remaining_waypoints(
-- 
2.43.0


From 8c08db87427b237ca52fd0637a37feeef57d4aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:20 +0000
Subject: [PATCH 096/110] fix: rehearsing an understudy again starts from the
 understudy's time

---
 src/upstage_des/task.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index c2a25c2..55c0835 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -357,8 +357,7 @@ class Task(SettableEnv):
         Returns:
             Actor: Cloned actor
         """
-        mocked_env = MockEnvironment.mock(self.env)
-        self.env = mocked_env
+        mocked_env = MockEnvironment.mock(actor.env)
         understudy = actor.clone(
             new_env=mocked_env,
             knowledge=knowledge,
-- 
2.43.0


From 5a0adf68c952617a2298107c743ce8a154761714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:46 +0000
Subject: [PATCH 097/110] fix: a rehearsal that fails leaves the task and the
 network as they were

---
 src/upstage_des/task.py         | 29 ++++++++++++++++++++++-------
 src/upstage_des/task_network.py | 27 ++++++++++++++++++++++-----
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 55c0835..ba735a1 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -394,6 +394,23 @@ class Task(SettableEnv):
         mocked_env: MockEnvironment = understudy.env
 
         self._rehearsing = True
+        try:
+            self._rehearse_events(understudy, mocked_env, kwargs)
+        finally:
+            self.env = _old_env
+            self._rehearsing = False
+        return understudy
+
+    def _rehearse_events(
+        self, understudy: "Actor", mocked_env: MockEnvironment, kwargs: dict[str, Any]
+    ) -> None:
+        """Rehearse the events the task yields.
+
+        Args:
+            understudy (Actor): The cloned actor.
+            mocked_env (MockEnvironment): The environment of the rehearsal.
+            kwargs (dict[str, Any]): Args to send to the task.
+        """
         generator = self.task(actor=understudy, **kwargs)
         returned_item = None
         while True:
@@ -417,10 +434,6 @@ class Task(SettableEnv):
                 #      f"{self.env.now - _old_env.now:.3g}]")
                 break
 
-        self.env = _old_env
-        self._rehearsing = False
-        return understudy
-
     def _handle_interruption(
         self, actor: "Actor", interrupt: Interrupt, next_event: BaseEvent | Process
     ) -> InterruptStates:
@@ -613,9 +626,11 @@ class DecisionTask(Task):
 
         self._rehearsing = True
 
-        self.rehearse_decision(actor=understudy)
-        self.env = _old_env
-        self._rehearsing = False
+        try:
+            self.rehearse_decision(actor=understudy)
+        finally:
+            self.env = _old_env
+            self._rehearsing = False
         return understudy
 
     @process
diff --git a/src/upstage_des/task_network.py b/src/upstage_des/task_network.py
index 126f297..ffb7f17 100644
--- a/src/upstage_des/task_network.py
+++ b/src/upstage_des/task_network.py
@@ -160,9 +160,30 @@ class TaskNetwork:
         _old_inst = self._current_task_inst
         _old_proc = self._current_task_proc
         knowledge = {} if knowledge is None else knowledge
-        num_tasks = len(task_name_list)
         # pre-clone the actor to get a hold of the new environment
         new_actor = actor.clone(knowledge=knowledge)
+        try:
+            return self._rehearse_path(new_actor, task_name_list, end_task)
+        finally:
+            # reset the internal parameters
+            self._current_task_name = _old_name
+            self._current_task_inst = _old_inst
+            self._current_task_proc = _old_proc
+
+    def _rehearse_path(
+        self, new_actor: REH_ACTOR, task_name_list: list[str], end_task: str | None
+    ) -> REH_ACTOR:
+        """Rehearse the tasks of a path with a cloned actor.
+
+        Args:
+            new_actor (Actor): The cloned actor.
+            task_name_list (list[str]): The tasks to be performed in order
+            end_task (str | None): A task name to end on
+
+        Returns:
+            Actor: The cloned actor, after the tasks.
+        """
+        num_tasks = len(task_name_list)
         task_idx = 0
         while True:
             if task_idx < num_tasks:
@@ -189,10 +210,6 @@ class TaskNetwork:
                         f"Task {follow_on} not allowed after '{task_name}' in network"
                     )
             task_idx += 1
-        # reset the internal parameters
-        self._current_task_name = _old_name
-        self._current_task_inst = _old_inst
-        self._current_task_proc = _old_proc
         return new_actor
 
     def __repr__(self) -> str:
-- 
2.43.0


From cdadd01adab40c067b63397371d5b4ebd5a92f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:48 +0000
Subject: [PATCH 098/110] fix: markers set while rehearsing do not stay on the
 task

---
 src/upstage_des/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index ba735a1..5739db1 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -394,11 +394,13 @@ class Task(SettableEnv):
         mocked_env: MockEnvironment = understudy.env
 
         self._rehearsing = True
+        _old_marker = (self._marker, self._marked_time, self._interrupt_action)
         try:
             self._rehearse_events(understudy, mocked_env, kwargs)
         finally:
             self.env = _old_env
             self._rehearsing = False
+            self._marker, self._marked_time, self._interrupt_action = _old_marker
         return understudy
 
     def _rehearse_events(
-- 
2.43.0


From dd7d53aa60197d01560fbb7e1f9eafca7268fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:20 +0000
Subject: [PATCH 099/110] fix: rehearsing nested any/all events completes the
 events inside them

---
 src/upstage_des/events.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 74fa159..2cb0a47 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -138,6 +138,15 @@ class BaseEvent(UpstageBase):
             )
         self._done_rehearsing = complete
 
+    def _finish_rehearsal_at(self, end_time: float, stop_time: float) -> None:
+        """Finish rehearsing the event when the waiting for it stops.
+
+        Args:
+            end_time (float): Time this event takes.
+            stop_time (float): Time after which nothing waits for the event anymore.
+        """
+        self._finish_rehearsal(complete=end_time <= stop_time)
+
     def rehearse(self) -> tuple[float, tyAny | None]:
         """Run the event in 'rehearsal' mode without changing the real environment.
 
@@ -397,6 +406,7 @@ class MultiEvent(BaseEvent):
                 )
         self.events = events
         self._simpy_event = None
+        self._rehearsed_times: dict[BaseEvent, float] = {}
 
     @staticmethod
     def aggregation_function(times: list[float]) -> float:
@@ -490,13 +500,7 @@ class MultiEvent(BaseEvent):
             return_sub_events (bool, Optional): Whether to return all times or not.
                 Defaults to False.
         """
-        event_times = {
-            event: event.calculate_time_to_complete()
-            for event in self.events
-            if isinstance(event, BaseEvent)
-        }
-
-        time_to_complete = self.aggregation_function(list(event_times.values()))
+        time_to_complete, _ = self.calc_time_to_complete_with_sub()
 
         return time_to_complete
 
@@ -511,6 +515,7 @@ class MultiEvent(BaseEvent):
             for event in self.events
             if isinstance(event, BaseEvent)
         }
+        self._rehearsed_times = event_times
         time_to_complete = self.aggregation_function(list(event_times.values()))
 
         return time_to_complete, event_times
@@ -540,14 +545,21 @@ class MultiEvent(BaseEvent):
         self._start_rehearsal()
 
         event_response = None
-        time_to_finish, event_times = self.calc_time_to_complete_with_sub()
+        time_to_finish, _ = self.calc_time_to_complete_with_sub()
+        self._finish_rehearsal_at(time_to_finish, time_to_finish)
 
-        for event, event_end_time in event_times.items():
-            event._finish_rehearsal(complete=event_end_time <= time_to_finish)
+        return time_to_finish, event_response
 
-        self._finish_rehearsal(complete=True)
+    def _finish_rehearsal_at(self, end_time: float, stop_time: float) -> None:
+        """Finish rehearsing this event and its sub-events when the waiting stops.
 
-        return time_to_finish, event_response
+        Args:
+            end_time (float): Time this event takes.
+            stop_time (float): Time after which nothing waits for the event anymore.
+        """
+        super()._finish_rehearsal_at(end_time, stop_time)
+        for event, event_end_time in self._rehearsed_times.items():
+            event._finish_rehearsal_at(event_end_time, stop_time)
 
 
 class Any(MultiEvent):
-- 
2.43.0


From 406fded90bc11207ee5bf5c4f6761ae5f3c80f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:21 +0000
Subject: [PATCH 100/110] fix: any/all of no events can be rehearsed, and take
 no time

---
 src/upstage_des/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 2cb0a47..0d3609b 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -575,7 +575,7 @@ class Any(MultiEvent):
         Returns:
             float: Aggregated time (the minimum)
         """
-        return min(times)
+        return min(times, default=0.0)
 
     @staticmethod
     def simpy_equivalent(env: SIM.Environment, events: list[SIM.Event]) -> SIM.Event:
@@ -826,7 +826,7 @@ class All(MultiEvent):
         Returns:
             float: Aggregated (maximum) time.
         """
-        return max(times)
+        return max(times, default=0.0)
 
     @staticmethod
     def simpy_equivalent(env: SIM.Environment, events: list[SIM.Event]) -> SIM.Event:
-- 
2.43.0


From e8fda3638fb7d9e244ee6c644a4f562fb1bae442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:22 +0000
Subject: [PATCH 101/110] fix: waits and any/all events can be cancelled while
 rehearsing

---
 src/upstage_des/events.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 0d3609b..3513fe9 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -270,6 +270,8 @@ class Wait(BaseEvent):
 
         There's no real meaning to cancelling a timeout. It sits in simpy's queue either way.
         """
+        if self._rehearsing:
+            return
         assert self._simpy_event is not None
         try:
             self._simpy_event.defused = True
@@ -472,6 +474,8 @@ class MultiEvent(BaseEvent):
         Args:
             seen (set[int]): Identifiers of events that have been cancelled.
         """
+        if self._rehearsing:
+            return
         if self._simpy_event is None:
             raise UpstageError("Can't cancel a nonexistent event.")
         self._simpy_event.defused = True
-- 
2.43.0


From 8e32f6f5db74eae636d38c9c1d50cbe486a5b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:47 +0000
Subject: [PATCH 102/110] fix: rehearsing a routine runs it with the
 rehearsal's clock and values

Its events took no time until all of it was done, and received nothing.
---
 src/upstage_des/task.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 5739db1..2eb862d 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -414,6 +414,8 @@ class Task(SettableEnv):
             kwargs (dict[str, Any]): Args to send to the task.
         """
         generator = self.task(actor=understudy, **kwargs)
+        # Routines being rehearsed, and what goes on when they are done
+        routines: list[tuple[Routine, Generator[Any, Any, Any]]] = []
         returned_item = None
         while True:
             try:
@@ -427,10 +429,21 @@ class Task(SettableEnv):
                     if isinstance(next_event, Process):
                         raise SimulationError(msg + " cannot be a process during rehearsal.")
                     raise SimulationError(msg + " must be a subclass of BaseEvent or Routine.")
+                if isinstance(next_event, Routine) and type(next_event).rehearse is Routine.rehearse:
+                    # Its code has to see the rehearsal's clock
+                    routines.append((next_event, generator))
+                    next_event.env = mocked_env
+                    generator = next_event._run()
+                    continue
                 time_advance, returned_item = next_event.rehearse()
                 mocked_env.now += time_advance
 
-            except StopIteration:
+            except StopIteration as stop:
+                if routines:
+                    routine, generator = routines.pop()
+                    routine._new_env = None
+                    returned_item = stop.value
+                    continue
                 # warn(f"Stopping rehearsal of task '{self.__class__.__name__}' "
                 #      f"for actor '{actor}'! [Rehearsal duration: "
                 #      f"{self.env.now - _old_env.now:.3g}]")
-- 
2.43.0


From 978d02213b475e38980d53dfdbe5441c65d8ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:13 +0000
Subject: [PATCH 103/110] fix: rehearsing an event that is yielded again only
 takes the time it has left

A wait that outlasts an any-event starts over when it is yielded again, so
its loop never ends.
---
 src/upstage_des/events.py | 30 +++++++++++++++++++++++++++---
 src/upstage_des/task.py   |  5 +++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 3513fe9..8c30d2f 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -48,6 +48,7 @@ class BaseEvent(UpstageBase):
         self._simpy_event: SIM.Event | None = None
         self._rehearsing: bool = False
         self._done_rehearsing: bool = False
+        self._rehearsed_time: float = 0.0
 
         self.created_at: float = self.now
         self.rehearsal_time_to_complete = rehearsal_time_to_complete
@@ -67,7 +68,7 @@ class BaseEvent(UpstageBase):
         Returns:
             float: The time until the event triggers.
         """
-        return self.rehearsal_time_to_complete
+        return max(0.0, self.rehearsal_time_to_complete - self._rehearsed_time)
 
     def as_event(self) -> SIM.Event:
         """Convert UPSTAGE event to a simpy Event.
@@ -121,6 +122,15 @@ class BaseEvent(UpstageBase):
         """
         return self._done_rehearsing
 
+    def _resume_rehearsal(self, started: "dict[BaseEvent, float]", now: float) -> None:
+        """Find how much of the event's time has passed since it was first yielded.
+
+        Args:
+            started (dict[BaseEvent, float]): When events were first yielded.
+            now (float): The time in the rehearsal.
+        """
+        self._rehearsed_time = now - started.setdefault(self, now)
+
     def _start_rehearsal(self) -> None:
         """Set the event to testing mode."""
         self._rehearsing = True
@@ -640,7 +650,7 @@ class Get(BaseRequestEvent):
             float: Estimated time until the event triggers.
 
         """
-        return self.rehearsal_time_to_complete
+        return super().calculate_time_to_complete()
 
     def as_event(self) -> ContainerGet | StoreGet:
         """Convert get to a ``simpy`` Event.
@@ -882,7 +892,7 @@ class Event(BaseEvent):
         Returns:
             float: Time to complete estimate.
         """
-        return self.rehearsal_time_to_complete
+        return super().calculate_time_to_complete()
 
     def as_event(self) -> SIM.Event:
         """Get the Event as a simpy type.
@@ -946,6 +956,20 @@ class Event(BaseEvent):
             exc.add_note(f"Runtime error when cancelling '{self}'")
             raise exc
 
+    def _resume_rehearsal(self, started: dict[BaseEvent, float], now: float) -> None:
+        """Find how much of the event's time has passed since it was first yielded.
+
+        Args:
+            started (dict[BaseEvent, float]): When events were first yielded.
+            now (float): The time in the rehearsal.
+        """
+        if self in started:
+            passed = now - started[self]
+            if self._done_rehearsing or passed >= self.rehearsal_time_to_complete:
+                # It has been succeeded, and it resets when it is yielded on
+                del started[self]
+        super()._resume_rehearsal(started, now)
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Run the event in 'trial' mode without changing the real environment.
 
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 2eb862d..3ae3cd1 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -416,6 +416,8 @@ class Task(SettableEnv):
         generator = self.task(actor=understudy, **kwargs)
         # Routines being rehearsed, and what goes on when they are done
         routines: list[tuple[Routine, Generator[Any, Any, Any]]] = []
+        # Events yielded again are part of the way there already
+        started: dict[BaseEvent, float] = {}
         returned_item = None
         while True:
             try:
@@ -435,6 +437,9 @@ class Task(SettableEnv):
                     next_event.env = mocked_env
                     generator = next_event._run()
                     continue
+                if isinstance(next_event, BaseEvent):
+                    for event in next_event.events_within():
+                        event._resume_rehearsal(started, mocked_env.now)
                 time_advance, returned_item = next_event.rehearse()
                 mocked_env.now += time_advance
 
-- 
2.43.0


From 084dbb657f476c4aef3fa9f479a8c1b3174a66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:29 +0000
Subject: [PATCH 104/110] fix: events know they are complete while rehearsing,
 and are not cancelled for real

---
 src/upstage_des/events.py | 10 ++++++++++
 src/upstage_des/task.py   | 16 ++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 8c30d2f..2d66f67 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -926,6 +926,8 @@ class Event(BaseEvent):
         Returns:
             bool
         """
+        if self._rehearsing:
+            return self._done_rehearsing
         return self._event.processed
 
     def get_payload(self) -> dict[str, tyAny]:
@@ -938,6 +940,7 @@ class Event(BaseEvent):
 
     def reset(self) -> None:
         """Reset the event to allow it to be held again."""
+        self._done_rehearsing = False
         assert isinstance(self.env, SIM.Environment)
         self._event = SIM.Event(self.env)
 
@@ -946,6 +949,8 @@ class Event(BaseEvent):
 
         Cancelling doesn't mean much, since it's still going to be yielded on.
         """
+        if self._rehearsing:
+            return
         if self._event.triggered and not self._event.defused:
             # The event has happened, so there is nothing to cancel.
             return
@@ -970,6 +975,11 @@ class Event(BaseEvent):
                 del started[self]
         super()._resume_rehearsal(started, now)
 
+    def _end_rehearsal(self) -> None:
+        """Go back to being a real event, because it can outlast the rehearsal."""
+        self._rehearsing = False
+        self._done_rehearsing = False
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Run the event in 'trial' mode without changing the real environment.
 
diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 3ae3cd1..a7c0595 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -395,16 +395,24 @@ class Task(SettableEnv):
 
         self._rehearsing = True
         _old_marker = (self._marker, self._marked_time, self._interrupt_action)
+        started: dict[BaseEvent, float] = {}
         try:
-            self._rehearse_events(understudy, mocked_env, kwargs)
+            self._rehearse_events(understudy, mocked_env, kwargs, started)
         finally:
+            for event in started:
+                if isinstance(event, Event):
+                    event._end_rehearsal()
             self.env = _old_env
             self._rehearsing = False
             self._marker, self._marked_time, self._interrupt_action = _old_marker
         return understudy
 
     def _rehearse_events(
-        self, understudy: "Actor", mocked_env: MockEnvironment, kwargs: dict[str, Any]
+        self,
+        understudy: "Actor",
+        mocked_env: MockEnvironment,
+        kwargs: dict[str, Any],
+        started: dict[BaseEvent, float],
     ) -> None:
         """Rehearse the events the task yields.
 
@@ -412,12 +420,12 @@ class Task(SettableEnv):
             understudy (Actor): The cloned actor.
             mocked_env (MockEnvironment): The environment of the rehearsal.
             kwargs (dict[str, Any]): Args to send to the task.
+            started (dict[BaseEvent, float]): Filled with when events are first yielded.
+                Events yielded again are part of the way there already.
         """
         generator = self.task(actor=understudy, **kwargs)
         # Routines being rehearsed, and what goes on when they are done
         routines: list[tuple[Routine, Generator[Any, Any, Any]]] = []
-        # Events yielded again are part of the way there already
-        started: dict[BaseEvent, float] = {}
         returned_item = None
         while True:
             try:
-- 
2.43.0


From 6ebea7f4a6665550ede7273fc64b4ed49998f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:30 +0000
Subject: [PATCH 105/110] fix: knowledge given to a rehearsal by a cloned actor
 is added to it

---
 src/upstage_des/task.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index a7c0595..7562176 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -6,6 +6,7 @@
 """Tasks constitute the actions that Actors can perform."""
 
 from collections.abc import Callable, Generator, Iterable
+from copy import copy
 from enum import IntFlag
 from functools import wraps
 from typing import TYPE_CHECKING, Any, TypeVar
@@ -388,6 +389,8 @@ class Task(SettableEnv):
         understudy = actor
         if not cloned_actor:
             understudy = self._clone_actor(actor, knowledge)
+        else:
+            understudy._knowledge.update({name: copy(know) for name, know in knowledge.items()})
         if not isinstance(understudy.env, MockEnvironment):
             raise SimulationError("Bad actor cloning.")
         self.env = understudy.env
@@ -650,6 +653,8 @@ class DecisionTask(Task):
         understudy = actor
         if not cloned_actor:
             understudy = self._clone_actor(actor, knowledge)
+        else:
+            understudy._knowledge.update({name: copy(know) for name, know in knowledge.items()})
         self.env = understudy.env
 
         self._rehearsing = True
-- 
2.43.0


From 6a3108f10778e83c0618683f5788243fde43e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:59 +0000
Subject: [PATCH 106/110] fix: a task rehearsing itself while being rehearsed
 stays in its rehearsal

---
 src/upstage_des/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 7562176..fde2355 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -396,6 +396,7 @@ class Task(SettableEnv):
         self.env = understudy.env
         mocked_env: MockEnvironment = understudy.env
 
+        _old_rehearsing = self._rehearsing
         self._rehearsing = True
         _old_marker = (self._marker, self._marked_time, self._interrupt_action)
         started: dict[BaseEvent, float] = {}
@@ -406,7 +407,7 @@ class Task(SettableEnv):
                 if isinstance(event, Event):
                     event._end_rehearsal()
             self.env = _old_env
-            self._rehearsing = False
+            self._rehearsing = _old_rehearsing
             self._marker, self._marked_time, self._interrupt_action = _old_marker
         return understudy
 
-- 
2.43.0


From d8dfb03f7a8c148bae05709c4c3b77ac92a07106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:38 +0000
Subject: [PATCH 107/110] fix: an event yielded again after its time in a
 rehearsal is done, despite rounding

---
 src/upstage_des/events.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 2d66f67..f83fe7d 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -6,6 +6,7 @@
 """Classes for UPSTAGE events that feed to simpy."""
 
 from collections.abc import Callable
+from math import isclose
 from typing import Any as tyAny
 from warnings import warn
 
@@ -130,6 +131,21 @@ class BaseEvent(UpstageBase):
             now (float): The time in the rehearsal.
         """
         self._rehearsed_time = now - started.setdefault(self, now)
+        if self._rehearsal_time_passed(started[self], now):
+            self._rehearsed_time = self.rehearsal_time_to_complete
+
+    def _rehearsal_time_passed(self, start: float, now: float) -> bool:
+        """Find if all of the event's time has passed since it was first yielded.
+
+        Args:
+            start (float): When the event was first yielded.
+            now (float): The time in the rehearsal.
+
+        Returns:
+            bool: If the event has no time left, give or take rounding.
+        """
+        end = start + self.rehearsal_time_to_complete
+        return end <= now or isclose(end, now, rel_tol=1e-12)
 
     def _start_rehearsal(self) -> None:
         """Set the event to testing mode."""
@@ -969,8 +985,7 @@ class Event(BaseEvent):
             now (float): The time in the rehearsal.
         """
         if self in started:
-            passed = now - started[self]
-            if self._done_rehearsing or passed >= self.rehearsal_time_to_complete:
+            if self._done_rehearsing or self._rehearsal_time_passed(started[self], now):
                 # It has been succeeded, and it resets when it is yielded on
                 del started[self]
         super()._resume_rehearsal(started, now)
-- 
2.43.0


From 2d9b8fd626819c62a3f912700468c598ccac9f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:14 +0000
Subject: [PATCH 108/110] fix: keep the recorded values of key/value states
 when they are changed in place

---
 src/upstage_des/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index d96aa92..12e48d7 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1256,7 +1256,7 @@ class _KeyValueBase(State):
 
     def _record_single(self, instance: "Actor", time: float, key: str, value: Any) -> None:
         name = f"{self.name}.{key}"
-        new = (time, value)
+        new = (time, deepcopy(value))
         if name not in instance._state_histories:
             instance._state_histories[name] = [new]
         elif self._record_duplicates or not _compare(new, instance._state_histories[name][-1]):
-- 
2.43.0


From fa634e6ac287bcebdf26a0aea89d12781695a1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:13 +0000
Subject: [PATCH 109/110] fix: refuse a continuous container that holds more
 than its capacity at first

---
 src/upstage_des/resources/container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index 0f9d4ab..5b8f350 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -174,6 +174,8 @@ class ContinuousContainer:
         self._capacity = capacity
         if init < 0 or capacity < 0:
             raise ValueError("Initial and capacity cannot be negative.")  # pragma: no cover
+        if init > capacity:
+            raise ValueError("Initial cannot be more than the capacity.")
         self._level = init
         self.error_empty = error_empty
         self.error_full = error_full
-- 
2.43.0


From c53873972ac7f4fa791b969da73938e482c08dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:16 +0000
Subject: [PATCH 110/110] fix: a plain Actor refuses states it does not declare

---
 src/upstage_des/actor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index ce7329e..5e0c53b 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -186,6 +186,7 @@ class Actor(SettableEnv, NamedUpstageEntity):
             debug_log=debug_log,
             debug_log_time=debug_log_time,
             initial_knowledge=initial_knowledge,
+            **states,
         )
 
     def __init_subclass__(
-- 
2.43.0

