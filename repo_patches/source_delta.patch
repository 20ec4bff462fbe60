From dd3a6248bfccb56448506f9ed4da3396bc2a0354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 01/20] fix: a decaying spot never ages to a negative area

StarSpot.age compared the decay with the peak area instead of the current
area, so a spot that had already shrunk could be left with area < 0 (and a
NaN angular radius).
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 4ae976b..da1e7c9 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -311,7 +311,7 @@ class StarSpot:
                     self.area_current = self.area_max - area_decay
         else:
             area_decay = time * self.decay_rate
-            if area_decay > self.area_max:
+            if area_decay > self.area_current:
                 self.area_current = 0*MSH
             else:
                 self.area_current = self.area_current - area_decay
-- 
2.43.0


From 63a8721f1a07316f293d59e4c40e60030489346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 02/20] fix: adding a spot recomputes its distances on the
 collection's grid

SpotCollection.add_spot replaced the gridmaker but kept the distances the
spot had precomputed on its old grid, so the next map raised or was wrong.
---
 vspec_vsm/spots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index da1e7c9..2135522 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -390,7 +390,8 @@ class SpotCollection:
         if isinstance(spot, StarSpot):
             spot = [spot]
         for s in spot:
-            s.gridmaker = self.gridmaker
+            if s.gridmaker is not self.gridmaker:
+                s.set_gridmaker(self.gridmaker)
         self.spots += tuple(spot)
 
     def clean_spotlist(self):
-- 
2.43.0


From 4f2706ad59e3ec6314458cc1a3da7e530c74e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 03/20] fix: faculae defined on another kind of grid can be
 added

FaculaCollection.add_faculae compared the grids first, and comparing a
rectangular grid with a spiral one raises TypeError.
---
 vspec_vsm/faculae.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 8ea1a62..f8493f3 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -380,8 +380,7 @@ class FaculaCollection:
             facula = (facula,)
         for fac in facula:
             fac: Facula
-            if not fac.gridmaker == self.gridmaker:
-                fac.gridmaker = self.gridmaker
+            fac.gridmaker = self.gridmaker
         self.faculae += tuple(facula)
 
     def clean_faclist(self) -> None:
-- 
2.43.0


From 9531a2d824836c6bfbd1dbce5bb3435235eb6d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 04/20] fix: average_teff parses the temperature keys of
 calc_coverage

The keys are strings such as '3300.00 K'; raising them to a power always
failed with TypeError.
---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 32bb960..6bb3e56 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -620,7 +620,7 @@ class Star:
         num = 0
         den = 0
         for teff, value in dat.items():
-            num += teff**4 * value
+            num += u.Quantity(teff)**4 * value
             den += value
         return ((num/den)**(0.25)).to(u.K)
 
-- 
2.43.0


From b66173bc1ab37a859a1ffb7609dec3d4afba6f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 05/20] fix: calc_coverage conserves the disk in every surface
 state

A star without any quiet photosphere left raised KeyError when granulation
was on, and temperatures that format to the same key overwrote each other.
---
 vspec_vsm/star.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 6bb3e56..d3375ae 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -555,13 +555,16 @@ class Star:
             pix_has_teff = np.where(surface_map == teff, 1, 0)
             nominal_area = np.sum(pix_has_teff*ld*proj_area)
             covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))
-            total_data[f'{teff:.2f}'] = nominal_area/total_area
-            covered_data[f'{teff:.2f}'] = covered_area/total_area
+            key = f'{teff:.2f}'
+            # temperatures that are written the same way share one entry
+            total_data[key] = total_data.get(key, 0) + nominal_area/total_area
+            covered_data[key] = covered_data.get(key, 0) + covered_area/total_area
         granulation_teff = self.teff - self.granulation.dteff
-        # initialize. This way it's okay if there's something else with that Teff too.
-        if granulation_teff not in teffs:
-            total_data[f'{granulation_teff:.2f}'] = 0
-            covered_data[f'{granulation_teff:.2f}'] = 0
+        # initialize. This way it's okay if there's something else with that Teff too,
+        # or if no quiet photosphere is left.
+        for key in (f'{self.teff:.2f}', f'{granulation_teff:.2f}'):
+            total_data.setdefault(key, 0)
+            covered_data.setdefault(key, 0)
 
         phot_frac = total_data[f'{self.teff:.2f}']
         total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
-- 
2.43.0


From 3fcbed568bdded11d46509f82022714ed17e0979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 06/20] fix: the angle between coincident points is 0, not NaN

Rounding can put the cosine just above 1; a facula exactly at disk center
then silently vanished from the map.
---
 vspec_vsm/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 1c76705..3310aa8 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -100,7 +100,7 @@ def get_angle_between(
     mu = (np.sin(lat1) * np.sin(lat2)
           + np.cos(lat1) * np.cos(lat2)
           * np.cos(lon1-lon2))
-    return np.arccos(mu)
+    return np.arccos(np.clip(mu, -1, 1))
 
 def proj_ortho(
     lat0: u.Quantity,
-- 
2.43.0


From 433ce92d9229aa7199cab73e078f8564b55bed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 07/20] fix: surface_fraction of a spot exactly at disk center
 is not NaN

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 2135522..68a9554 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -244,7 +244,7 @@ class StarSpot:
         cos_c0 = (np.sin(sub_obs_coords['lat']) * np.sin(self.coords['lat'])
                   + np.cos(sub_obs_coords['lat']) * np.cos(self.coords['lat'])
                   * np.cos(sub_obs_coords['lon']-self.coords['lon']))
-        c0 = np.arccos(cos_c0)
+        c0 = np.arccos(np.clip(cos_c0, -1, 1))
         c = np.linspace(-90, 90, n_points)*u.deg
         a = self.angular_radius(star_rad).to(u.deg)
         rad = a**2 - (c-c0)**2
-- 
2.43.0


From 0e9a6eec5d656d206540a7e97289f9645b2f1047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 08/20] fix: granulation with zero mean coverage does not raise
 KeyError

The amplitude parameter is stored under 'scale'.
---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index d3375ae..1ac0f23 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -779,7 +779,7 @@ class Star:
         if self.granulation is None:
             return np.zeros(shape=time.shape)
         else:
-            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['amp'] == 0):
+            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['scale'] == 0):
                 shape = time.shape
                 arr = np.zeros(shape=shape)
                 return arr
-- 
2.43.0


From 908b82d1f0e35eadc2c25c84d8824ee312dc7ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 09/20] fix: flares are integrated over short time windows too

The number of samples was the window divided by 10 min, rounded down, so
any window shorter than 20 min reported zero time-area for every flare and
longer ones were sampled more coarsely than 10 min.
---
 vspec_vsm/flares.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index 62eace0..47386fa 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -679,7 +679,8 @@ class FlareCollection:
             tstart, tfinish, sub_obs_coords)
         flare_timeareas = []
         time_resolution = 10*u.min
-        N_steps = int(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)
+        N_steps = int(np.ceil(((tfinish-tstart)/time_resolution).to_value(u.dimensionless_unscaled))) + 1
+        N_steps = max(N_steps, 2)
         time = np.linspace(tstart, tfinish, N_steps)
         for flare in visible_flares:
             timearea = flare.get_timearea(time)
-- 
2.43.0


From f7e014f1949400700bd36711a185992d516ce367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 10/20] fix: the projection seen from a pole depends on the
 central longitude

proj_ortho ignored lon0 for an observer exactly above a pole, so a transit
covered the wrong part of the surface there.
---
 vspec_vsm/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 3310aa8..e681f95 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -180,10 +180,10 @@ def proj_ortho(
     c = np.pi/2 - lats
     if b == 0:  # centered on north pole
         a = c
-        C = np.where(c <= np.pi/2, np.pi-lons, np.nan)
+        C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
     elif b == np.pi:  # centered on south pole
         a = c
-        C = np.where(c >= np.pi/2, lons, np.nan)
+        C = np.where(c >= np.pi/2, lons-lon0, np.nan)
     else:  # centered elsewhere
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
-- 
2.43.0


From 901e241e521a5ab4a97ffb91a1353f3145d97af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 11/20] fix: the point exactly at disk center is projected to
 0, not NaN

---
 vspec_vsm/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index e681f95..e43d377 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -188,7 +188,7 @@ def proj_ortho(
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
               * np.cos(lon0-lons))
-        a = np.arccos(mu)
+        a = np.arccos(np.clip(mu, -1, 1))
         num = np.cos(c) - np.cos(a)*np.cos(b)
         den = np.sin(a)*np.sin(b)
         den[den==0]=1e-20 # supress warning. This is overwritten anyway.
-- 
2.43.0


From e4b3f9803af1dd988e380fd0b386aa6fac4258f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 12/20] fix: circle overlap is not NaN at the contact points

---
 vspec_vsm/helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index e43d377..0767d14 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -273,6 +273,7 @@ def calc_circ_fraction_inside_unit_circle(x, y, r):
     d2 = (d**2 + r**2 - R**2) / (2*d)
 
     def area(_R, _d):
+        _d = np.clip(_d, -_R, _R)  # rounding at the contact points
         return _R**2 * np.arccos(_d/_R) - _d * np.sqrt(_R**2 - _d**2)
     A1 = area(R, d1)
     A2 = area(r, d2)
-- 
2.43.0


From aaeedc03123d314adeee9669f6acbca77423a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 13/20] fix: granulation on dense time axes or with zero
 amplitude is not NaN

---
 vspec_vsm/granules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/granules.py b/vspec_vsm/granules.py
index cbd44de..3b982f1 100644
--- a/vspec_vsm/granules.py
+++ b/vspec_vsm/granules.py
@@ -60,10 +60,13 @@ def build_gp(params: dict, X: np.ndarray) -> GaussianProcess:
 
     """
     kernel = GranulationKernel(params['scale'], params['period'])
+    # A small nugget keeps the covariance matrix positive definite in single
+    # precision when `X` is much denser than the period, or `scale` is zero.
+    nugget = 1e-4*kernel.evaluate(0., 0.) + 1e-12
     return GaussianProcess(
         kernel,
         X,
-        diag=0,
+        diag=nugget,
         mean=params['mean']
     )
 
-- 
2.43.0


From bba3dc7e07cd342046f16115f45ec411801d7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:28 +0000
Subject: [PATCH 14/20] fix: granulation accepts an integer mean coverage

---
 vspec_vsm/granules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/granules.py b/vspec_vsm/granules.py
index 3b982f1..2299f98 100644
--- a/vspec_vsm/granules.py
+++ b/vspec_vsm/granules.py
@@ -67,7 +67,7 @@ def build_gp(params: dict, X: np.ndarray) -> GaussianProcess:
         kernel,
         X,
         diag=nugget,
-        mean=params['mean']
+        mean=float(params['mean'])
     )
 
 
-- 
2.43.0


From 7d4dc808fdef72860faa468d37e97cb2b8d3a0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:05 +0000
Subject: [PATCH 15/20] fix: mean spot area subtracts the initial area in the
 growth integral

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 68a9554..50586d0 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -673,7 +673,7 @@ class SpotGenerator:
             return self.dist_area_mean
         else:
             integrated_area = (self.dist_area_mean / self.growth_rate) \
-                + (self.init_area / self.growth_rate) \
+                - (self.init_area / self.growth_rate) \
                 + (self.dist_area_mean**2/2/self.decay_rate)
             return integrated_area / self.mean_lifetime
 
-- 
2.43.0


From ad771576346b5c3fe5d0c52d50be714747b3f17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:52 +0000
Subject: [PATCH 16/20] fix: mean facula area follows the growth and decay law
 of the radius

---
 vspec_vsm/faculae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index f8493f3..84158eb 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -614,11 +614,11 @@ class FaculaGenerator:
         The time-averaged area of a typical facula.
 
         .. math::
-            \\bar{A} = \\frac{ \\pi r_0 ^2 (1-e^{-2}) }{2}
+            \\bar{A} = \\frac{ \\pi r_0 ^2 (1-e^{-4}) }{4}
 
         :type: astropy.units.Quantity
         """
-        return 0.5 * np.pi * (1-np.e**-2) * self.dist_r_peak**2
+        return 0.25 * np.pi * (1-np.e**-4) * self.dist_r_peak**2
 
     def get_n_faculae_expected(self, time: u.Quantity, rad_star: u.Quantity) -> float:
         """
-- 
2.43.0


From de46dfa9ce398ca0b30e3a7c368a774db6404192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:03 +0000
Subject: [PATCH 17/20] fix: plot_surface failed with matplotlib 3.9 and later,
 which removed cm.get_cmap

---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 1ac0f23..77215d3 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -689,7 +689,7 @@ class Star:
         ld = self.ld_mask_for_plotting(mu)
         alpha = 1-ld.T/np.max(ld.T)
         ax.imshow(np.ones_like(ld), extent=(0, 360, -90, 90),
-                  transform=ccrs.PlateCarree(), origin='lower', alpha=alpha, cmap=plt.cm.get_cmap('gray'), zorder=100)
+                  transform=ccrs.PlateCarree(), origin='lower', alpha=alpha, cmap='gray', zorder=100)
 
     def get_flares_over_observation(self, time_duration: Quantity):
         """
-- 
2.43.0


From c496108525452f76feb12a19826f7a83be66e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:03 +0000
Subject: [PATCH 18/20] fix: plot_surface failed on spiral grids, whose limb
 darkening was not resampled for display

---
 vspec_vsm/star.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 77215d3..4064b9d 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -686,7 +686,9 @@ class Star:
         ax.contourf(lons, lats, transit_mask.T, colors='k', alpha=1,
                     transform=ccrs.PlateCarree(), zorder=zorder)
         mu = self.get_mu(lat0, lon0)
-        ld = self.ld_mask_for_plotting(mu)
+        _, _, ld = self.gridmaker.display_grid(
+            nlat, nlon, self.ld_mask_for_plotting(mu))
+        ld = ld.to_value(u.dimensionless_unscaled)
         alpha = 1-ld.T/np.max(ld.T)
         ax.imshow(np.ones_like(ld), extent=(0, 360, -90, 90),
                   transform=ccrs.PlateCarree(), origin='lower', alpha=alpha, cmap='gray', zorder=100)
-- 
2.43.0


From f56467b99ad116d4a25abab6d2943bec65b5ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:03 +0000
Subject: [PATCH 19/20] fix: plotted planet had a gap between the last grid
 longitude and the first

---
 vspec_vsm/star.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 4064b9d..def4591 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -648,6 +648,7 @@ class Star:
         import matplotlib.pyplot as plt
         import cartopy.crs as ccrs
         from cartopy.mpl.geoaxes import GeoAxes
+        from cartopy.util import add_cyclic_point
         ax: GeoAxes
         proj = ccrs.Orthographic(
             central_latitude=lat0.to_value(u.deg),
@@ -682,8 +683,10 @@ class Star:
         _, _, data = self.gridmaker.display_grid(nlat, nlon, covered)
 
         transit_mask = np.where(data > 0.5, 1, np.nan)
+        # close the gap between the last and the first longitude
+        transit_mask, mask_lons = add_cyclic_point(transit_mask.T, coord=lons)
         zorder = 100 if pl_frac == 1. else -100
-        ax.contourf(lons, lats, transit_mask.T, colors='k', alpha=1,
+        ax.contourf(mask_lons, lats, transit_mask, colors='k', alpha=1,
                     transform=ccrs.PlateCarree(), zorder=zorder)
         mu = self.get_mu(lat0, lon0)
         _, _, ld = self.gridmaker.display_grid(
-- 
2.43.0


From 9dc3fab5eb9c57bd31284144b5fccdcc7aeac53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:06 +0000
Subject: [PATCH 20/20] fix: a facula whose wall and floor round to the same
 temperature no longer breaks the map

---
 vspec_vsm/faculae.py | 5 +++++
 vspec_vsm/star.py    | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 84158eb..0d0d4cd 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -245,6 +245,11 @@ class Facula:
         if self.floor_dteff == self.wall_dteff:
             raise ValueError(
                 'Wall and Floor teff are equal. This is not allowed.')
+        if round_teff(self.floor_dteff) == round_teff(self.wall_dteff):
+            # both are the same after rounding, so they share one entry
+            return {
+                round_teff(self.wall_dteff): np.pi*self.radius**2 * np.cos(angle)
+            }
         if self.radius < self.floor_teff_min_rad:
             return {
                 round_teff(self.wall_dteff): np.pi*self.radius**2 * np.cos(angle),
diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index def4591..d5ab488 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -350,7 +350,9 @@ class Star:
                 pass
             else:
                 fracs = facula.fractional_effective_area(angle)
-                dteff_wall, dteff_floor = fracs.keys()
+                dteffs = list(fracs.keys())
+                # a single entry if wall and floor are the same after rounding
+                dteff_wall, dteff_floor = dteffs[0], dteffs[-1]
                 frac = fracs[dteff_wall].value
                 mu_of_fac_pix = mu[inside_fac]
                 border_mu = np.percentile(mu_of_fac_pix, 100*frac)
-- 
2.43.0

