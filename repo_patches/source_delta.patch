From 5caf23ca83731a5b89b96135792adfbe006ed772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 1/8] fix: reset polyhedron scratch values when a gravity
 evaluation fails

A station on a vertex raises ZeroDivisionError; the values cached on faces and
edges were kept and silently reused by the next evaluation.
---
 geec/polyhedron.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 3c2dc67..8007288 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -995,14 +995,16 @@ class Polyhedron:
         # self.set_origin(coord)
         T = np.zeros((3, 3))
 
-        for face in self.faces:
-            (g, t) = face.get_gravity(coord, density, Gc, gradient)
-            G += g
-            T += t
-
-        # reset intermediate variables, and shift back origin
-        # self.reset_origin(coord)
-        self.reset(coord)
+        try:
+            for face in self.faces:
+                (g, t) = face.get_gravity(coord, density, Gc, gradient)
+                G += g
+                T += t
+        finally:
+            # reset intermediate variables (even if the computation failed),
+            # and shift back origin
+            # self.reset_origin(coord)
+            self.reset(coord)
 
         return (G, T)
 
-- 
2.43.0


From 74df614ad0cb2f0b11c0303f89fd7d1337167553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 2/8] fix: accept the documented vertical datum name egm2008

---
 geec/crs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geec/crs.py b/geec/crs.py
index cefde8e..154e464 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -35,6 +35,7 @@ class VDatumEnum(StrEnum):
     EGM84 = "egm84"
     EGM96 = "egm96"
     EGM08 = "egm2008"
+    EGM2008 = "egm2008"  # alias: documented name in the configuration file
 
 
 EllModelEnum = Enum("EllModelEnum", pm.Ellipsoid.models)
-- 
2.43.0


From 88a12fedbc39d1e5274317cf5ea4fc0a3f802b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 3/8] fix: do not treat local ENU metres as longitudes and
 latitudes

An east coordinate above 180 m was shifted by 360 m, and a north coordinate
above 90 m was rejected as an invalid latitude.
---
 geec/dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index ea20e8c..11b508c 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -41,10 +41,10 @@ class Dataset:
         """Convert longitude to -180°..180°,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, ENU or ECEF coordinate system, do nothing.
         """
         CRS_LON180 = {
-            geec.crs.CRSEnum.ENU: geec.crs.wrap180,
+            geec.crs.CRSEnum.ENU: lambda x: x,
             geec.crs.CRSEnum.ELLPS: geec.crs.wrap180,
             geec.crs.CRSEnum.ECEF: lambda x: x,
             geec.crs.CRSEnum.CART: lambda x: x,
@@ -56,10 +56,10 @@ class Dataset:
         """Convert altitude to ellipsoid height,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, ENU or ECEF coordinate system, do nothing.
         """
         CRS_ELLPSH = {
-            geec.crs.CRSEnum.ENU: geec.crs.ellipsoid_height,
+            geec.crs.CRSEnum.ENU: lambda x, y: (x, y),
             geec.crs.CRSEnum.ELLPS: geec.crs.ellipsoid_height,
             geec.crs.CRSEnum.ECEF: lambda x, y: (x, y),
             geec.crs.CRSEnum.CART: lambda x, y: (x, y),
-- 
2.43.0


From 0dcb39ca65b3feeaef9aba583bfc75d930fe42e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 4/8] fix: set the reference ellipsoid when converting ECEF
 points to ENU

---
 geec/crs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geec/crs.py b/geec/crs.py
index 154e464..1767239 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -397,6 +397,7 @@ def ecef_to_enu(
 
     # update coordinates reference system
     crs.name = CRSEnum.ENU
+    crs.ellps = _WGS84_
     crs.enu = ENU(
         ellps=_WGS84_,
         longitude_origin=lon0,
-- 
2.43.0


From 1e1669be8629e7a27fe1d08820cef1be6d318717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 5/8] fix: honour the reference ellipsoid when converting
 points to ENU

Points on another ellipsoid were read as if they were on WGS84.
---
 geec/crs.py     | 11 +++++++++++
 geec/dataset.py |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/geec/crs.py b/geec/crs.py
index 1767239..46ce24a 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -360,6 +360,17 @@ def ellps_to_wgs84(
     return points, crs
 
 
+def ellps_to_enu(
+    points: npt.NDArray[np.float64], crs: CRS, lon0: float, lat0: float, alt0: float
+) -> tuple[npt.NDArray[np.float64], CRS]:
+    """Convert points from ellipsoid to ENU coordinates.
+
+    ENU origin: lon0, lat0, alt0 (express in WGS84 ellipsoid)
+    """
+    points, crs = ellps_to_wgs84(points, crs)
+    return wgs84_to_enu(points, crs, lon0, lat0, alt0)
+
+
 def enu_to_wgs84(
     points: npt.NDArray[np.float64], crs: CRS
 ) -> tuple[npt.NDArray[np.float64], CRS]:
diff --git a/geec/dataset.py b/geec/dataset.py
index 11b508c..7a6c01f 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -107,7 +107,7 @@ class Dataset:
         """
         CRS_TOENU = {
             geec.crs.CRSEnum.ENU: lambda x, y, *args: (x, y),
-            geec.crs.CRSEnum.ELLPS: geec.crs.wgs84_to_enu,
+            geec.crs.CRSEnum.ELLPS: geec.crs.ellps_to_enu,
             geec.crs.CRSEnum.ECEF: geec.crs.ecef_to_enu,
             geec.crs.CRSEnum.CART: lambda x, y, *args: (x, y),
         }
-- 
2.43.0


From 5882c3a934b30579267b755d636f3e4ae1cec655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 6/8] fix: read integer coordinates as floating point numbers

Adding the geoid height in place to an integer array raises UFuncTypeError.
---
 geec/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 7a6c01f..b203f34 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -146,7 +146,8 @@ def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
 
 
 def get_dataset(config: Subview) -> Dataset:
-    ds_coords = _read_coords(config)
+    # integer coordinates can not be transformed in place
+    ds_coords = np.asarray(_read_coords(config), dtype=np.float64)
     ds_crs = geec.crs.get_crs(config["crs"])
 
     return Dataset(coords=ds_coords, crs=ds_crs)
-- 
2.43.0


From 3786d73b4d496bfcf7689b3777222919f576ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 7/8] fix: use the density and gravity constant of each mass
 body

The values of the first mass body were used for all of them.
---
 geec/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/cli.py b/geec/cli.py
index df90a73..ce85a4d 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -65,9 +65,6 @@ def run(
     # assess Polyhedron of each mass bodies
     p = [Polyhedron(mass.dataset.coords) for mass in masses]
 
-    density = masses[0].density
-    Gc = masses[0].gravity_constant
-
     # observation points
     observer = geec.observer.get_observer(config)
     observer.to_wgs84()
@@ -78,7 +75,10 @@ def run(
 
     def add_gravity(row):
         s = Station(np.array(row))
-        s.compute_gravity(p, density, Gc, gradient=gradient)
+        for poly, mass in zip(p, masses, strict=True):
+            s.compute_gravity(
+                poly, mass.density, mass.gravity_constant, gradient=gradient
+            )
         listG = s.G
         listT = s.T.flatten()[
             [0, 1, 2, 4, 5, 8]
-- 
2.43.0


From f4df7a47666915d15fa527496125da09a3ee84d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 8/8] fix: compute gravity at the observation points in the
 frame of the mass bodies

Longitudes and latitudes [degree] were used as if they were ECEF coordinates [m].
---
 geec/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geec/cli.py b/geec/cli.py
index ce85a4d..39017c0 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -73,6 +73,10 @@ def run(
     obs_name = observer.coords_name
     obs_unit = observer.coords_unit
 
+    # compute gravity in the same frame as the mass bodies
+    observer.to_ecef()
+    stations = observer.dataset.coords
+
     def add_gravity(row):
         s = Station(np.array(row))
         for poly, mass in zip(p, masses, strict=True):
@@ -85,7 +89,7 @@ def run(
         ]  # "txx", "txy", "txz", "tyy", "tyz", "tzz"
         return np.concatenate([listG, listT])
 
-    listGT = np.apply_along_axis(add_gravity, axis=1, arr=obs_points)
+    listGT = np.apply_along_axis(add_gravity, axis=1, arr=stations)
     G_name = ["Gx", "Gy", "Gz"]
     G_unit = ["(mGal)", "(mGal)", "(mGal)"]
     T_name = ["txx", "txy", "txz", "tyy", "tyz", "tzz"]
-- 
2.43.0

