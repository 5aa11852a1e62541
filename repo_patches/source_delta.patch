From 466ee960c2461f81459c3f17eb8bdc94812f1dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:36 +0000
Subject: [PATCH 01/29] fix: Star.average_teff parses the printed temperatures
 it gets from calc_coverage

calc_coverage keys its result by formatted strings, so raising the key to the
fourth power always failed with a TypeError.
---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 32bb960..6bb3e56 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -620,7 +620,7 @@ class Star:
         num = 0
         den = 0
         for teff, value in dat.items():
-            num += teff**4 * value
+            num += u.Quantity(teff)**4 * value
             den += value
         return ((num/den)**(0.25)).to(u.K)
 
-- 
2.43.0


From 649e2881af8cc63112bd39af921474025f2aff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:36 +0000
Subject: [PATCH 02/29] fix: get_granulation_coverage looks up the amplitude
 under its real key

A granulation model with zero mean coverage raised KeyError('amp').
---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 6bb3e56..4972e85 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -776,7 +776,7 @@ class Star:
         if self.granulation is None:
             return np.zeros(shape=time.shape)
         else:
-            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['amp'] == 0):
+            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['scale'] == 0):
                 shape = time.shape
                 arr = np.zeros(shape=shape)
                 return arr
-- 
2.43.0


From c3fcae76a1bf10a6dd8b7a4de2d3515e29fe02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:36 +0000
Subject: [PATCH 03/29] fix: SpotCollection.add_spot recomputes the distances
 on the new grid

Only the attribute was replaced; a spot created on another grid kept its old
distance array and could not be mapped.
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 4ae976b..9545480 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -390,7 +390,7 @@ class SpotCollection:
         if isinstance(spot, StarSpot):
             spot = [spot]
         for s in spot:
-            s.gridmaker = self.gridmaker
+            s.set_gridmaker(self.gridmaker)
         self.spots += tuple(spot)
 
     def clean_spotlist(self):
-- 
2.43.0


From 4782ac52252364a79f0cd00f106af1790a4a3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:36 +0000
Subject: [PATCH 04/29] fix: FaculaCollection.add_faculae accepts faculae made
 on another kind of grid

Comparing a rectangular grid with a spiral one raises TypeError.
---
 vspec_vsm/faculae.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 8ea1a62..f8493f3 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -380,8 +380,7 @@ class FaculaCollection:
             facula = (facula,)
         for fac in facula:
             fac: Facula
-            if not fac.gridmaker == self.gridmaker:
-                fac.gridmaker = self.gridmaker
+            fac.gridmaker = self.gridmaker
         self.faculae += tuple(facula)
 
     def clean_faclist(self) -> None:
-- 
2.43.0


From 012cd2fd03370c5c902ab78ff7757741efa0b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:36 +0000
Subject: [PATCH 05/29] fix: a decaying spot stops at zero area

The decay was compared with the maximum instead of the current area, so a spot
partway through its decay could reach a negative area (and a NaN radius).
---
 vspec_vsm/spots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 9545480..b06e332 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -288,7 +288,7 @@ class StarSpot:
 
         If the spot is not growing, it calculates the area that the spot should
         decay (`area_decay`). If the decayed area (`area_decay`) is greater than
-        the maximum area (`area_max`), the `area_current` attribute is set to zero.
+        the current area, the `area_current` attribute is set to zero.
         Otherwise, it updates the `area_current` attribute accordingly.
         """
         if self.is_growing:
@@ -311,7 +311,7 @@ class StarSpot:
                     self.area_current = self.area_max - area_decay
         else:
             area_decay = time * self.decay_rate
-            if area_decay > self.area_max:
+            if area_decay > self.area_current:
                 self.area_current = 0*MSH
             else:
                 self.area_current = self.area_current - area_decay
-- 
2.43.0


From ac9b8e842d76393618401dcbe8279125d381ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:36 +0000
Subject: [PATCH 06/29] fix: SpotGenerator.off uses a growth rate, not a time

Mature spots generated by it could not be aged (UnitConversionError).
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index b06e332..4e3e85a 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -619,7 +619,7 @@ class SpotGenerator:
             dist_area_logsigma=1,
             umbra_teff=0*u.K,
             penumbra_teff=0*u.K,
-            growth_rate=0*u.day,
+            growth_rate=0/u.day,
             decay_rate=0*MSH/u.day,
             init_area=10*MSH,
             distribution='iso',
-- 
2.43.0


From 38d3e9aaecd8f957d0791ce4f7e2e1e132193892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:36 +0000
Subject: [PATCH 07/29] fix: FlareGenerator.pdf returns the density per energy
 unit

A density in energy has units of 1/energy; converting it to a dimensionless
number always failed with a UnitConversionError.
---
 vspec_vsm/flares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index 62eace0..cdb94e6 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -325,7 +325,7 @@ class FlareGenerator:
         pdf : float or np.ndarray
             The probability density of energy
         """
-        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(u.dimensionless_unscaled)
+        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(1/self.energy_unit)
 
     def cdf(self, energy: u.Quantity):
         """
-- 
2.43.0


From c482c8f047073729915f7e2b9fa2386a415ed3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 08/29] fix: get_angle_between is finite for coincident and
 antipodal points

Rounding can make the cosine exceed 1, e.g. at latitude -12 deg; the NaN angle
made calc_coverage fail for a facula at the centre of the disk.
---
 vspec_vsm/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 1c76705..40fa13c 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -100,7 +100,8 @@ def get_angle_between(
     mu = (np.sin(lat1) * np.sin(lat2)
           + np.cos(lat1) * np.cos(lat2)
           * np.cos(lon1-lon2))
-    return np.arccos(mu)
+    # rounding can push mu of coincident or antipodal points out of bounds
+    return np.arccos(np.clip(mu, -1, 1))
 
 def proj_ortho(
     lat0: u.Quantity,
-- 
2.43.0


From e41808f3a0fb5166390fcb6815037dec85363903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 09/29] fix: StarSpot.surface_fraction is finite for a spot at
 the disk center

Rounding can make the cosine of the distance exceed 1.
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 4e3e85a..1350e32 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -244,7 +244,7 @@ class StarSpot:
         cos_c0 = (np.sin(sub_obs_coords['lat']) * np.sin(self.coords['lat'])
                   + np.cos(sub_obs_coords['lat']) * np.cos(self.coords['lat'])
                   * np.cos(sub_obs_coords['lon']-self.coords['lon']))
-        c0 = np.arccos(cos_c0)
+        c0 = np.arccos(np.clip(cos_c0, -1, 1))
         c = np.linspace(-90, 90, n_points)*u.deg
         a = self.angular_radius(star_rad).to(u.deg)
         rad = a**2 - (c-c0)**2
-- 
2.43.0


From b4d93ad18c4f477acf1897aa64334ad590c5f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 10/29] fix: proj_ortho projects the point at the disk center

Rounding can make its mu exceed 1; the NaN coordinates left the point at disk
center uncovered by a transiting planet.
---
 vspec_vsm/helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 40fa13c..ee85d28 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -189,6 +189,7 @@ def proj_ortho(
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
               * np.cos(lon0-lons))
+        mu = np.clip(mu, -1, 1) # rounding can exceed these bounds
         a = np.arccos(mu)
         num = np.cos(c) - np.cos(a)*np.cos(b)
         den = np.sin(a)*np.sin(b)
-- 
2.43.0


From dd64e1ad5dfd6b18982df7cc39d4dfcc9c463a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 11/29] fix: cos_angle_from_disk_center stays within [-1, 1]

Rounding can exceed 1 towards the observer; display_grid turned that into NaN.
---
 vspec_vsm/coordinate_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/coordinate_grid.py b/vspec_vsm/coordinate_grid.py
index 8f5433b..de95106 100644
--- a/vspec_vsm/coordinate_grid.py
+++ b/vspec_vsm/coordinate_grid.py
@@ -132,7 +132,8 @@ class CoordinateGrid:
         mu: u.Quantity = (np.sin(lat0) * np.sin(latgrid)
                           + np.cos(lat0) * np.cos(latgrid)
                           * np.cos(lon0-longrid))
-        return mu.to_value(u.dimensionless_unscaled)
+        # rounding can push mu out of bounds
+        return np.clip(mu.to_value(u.dimensionless_unscaled), -1, 1)
 
     @property
     def _area(self):
-- 
2.43.0


From dbd6166ed2247aa733f489455d1cd06dc92f1721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 12/29] fix: proj_ortho honors the central longitude when
 centered on a pole

The surface did not turn with lon0 for an observer exactly above a pole, so a
transit hid the wrong part of the star.
---
 vspec_vsm/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index ee85d28..43a1d39 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -181,10 +181,10 @@ def proj_ortho(
     c = np.pi/2 - lats
     if b == 0:  # centered on north pole
         a = c
-        C = np.where(c <= np.pi/2, np.pi-lons, np.nan)
+        C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
     elif b == np.pi:  # centered on south pole
         a = c
-        C = np.where(c >= np.pi/2, lons, np.nan)
+        C = np.where(c >= np.pi/2, lons-lon0, np.nan)
     else:  # centered elsewhere
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
-- 
2.43.0


From 7b428b2dfcb68ef737809a09f45492ea8d57bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 13/29] fix: calc_circ_fraction_inside_unit_circle is finite
 for tangent circles

e.g. x=1.04, r=0.04 returned NaN.
---
 vspec_vsm/helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 43a1d39..c3a9199 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -275,6 +275,7 @@ def calc_circ_fraction_inside_unit_circle(x, y, r):
     d2 = (d**2 + r**2 - R**2) / (2*d)
 
     def area(_R, _d):
+        _d = np.clip(_d, -_R, _R)  # rounding exceeds these bounds at tangency
         return _R**2 * np.arccos(_d/_R) - _d * np.sqrt(_R**2 - _d**2)
     A1 = area(R, d1)
     A2 = area(r, d2)
-- 
2.43.0


From 1d870835f0af7b290c35cd621b6b155711e63a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 14/29] fix: flare time-areas of short windows are not zero

Windows up to 20 minutes were sampled at one or no point, giving a time-area of
zero however bright the flare; longer ones were sampled coarser than the stated
resolution.
---
 vspec_vsm/flares.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index cdb94e6..d017d2d 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -679,7 +679,9 @@ class FlareCollection:
             tstart, tfinish, sub_obs_coords)
         flare_timeareas = []
         time_resolution = 10*u.min
-        N_steps = int(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)
+        # number of samples so that they are at most `time_resolution` apart
+        N_steps = int(np.ceil(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)) + 1
+        N_steps = max(N_steps, 2)
         time = np.linspace(tstart, tfinish, N_steps)
         for flare in visible_flares:
             timearea = flare.get_timearea(time)
-- 
2.43.0


From 3bcc698133e4aba737155a9702eb217f3e6a5961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:44 +0000
Subject: [PATCH 15/29] fix: keep surface temperatures in double precision

In single precision a photosphere temperature such as 3000.005001 K prints
differently from the temperature of the star, and calc_coverage raised KeyError.
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 1350e32..e574866 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -436,7 +436,7 @@ class SpotCollection:
         surface_map : array of astropy.units.Quantity , shape(M,N)
             Map of the stellar surface with Teff assigned to each pixel
         """
-        surface_map = self.gridmaker.zeros()*star_teff.unit + star_teff
+        surface_map = self.gridmaker.zeros(dtype='float64')*star_teff.unit + star_teff
         for spot in self.spots:
             teff_dict = spot.map_pixels(star_rad)
             # penumbra
-- 
2.43.0


From b0dd4c520ff201ba115cec87d96817f7c07b3967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:44 +0000
Subject: [PATCH 16/29] fix: calc_coverage keeps the shares of temperatures
 that print alike

Regions closer than 0.01 K overwrote each other (as did granulation close to
another temperature), so the shares no longer added up to one, and a star without
any quiet photosphere left raised KeyError when granulation was on.
---
 vspec_vsm/star.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 4972e85..e48e42b 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -555,13 +555,16 @@ class Star:
             pix_has_teff = np.where(surface_map == teff, 1, 0)
             nominal_area = np.sum(pix_has_teff*ld*proj_area)
             covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))
-            total_data[f'{teff:.2f}'] = nominal_area/total_area
-            covered_data[f'{teff:.2f}'] = covered_area/total_area
+            # temperatures that print alike share a key
+            key = f'{teff:.2f}'
+            total_data[key] = total_data.get(key, 0) + nominal_area/total_area
+            covered_data[key] = covered_data.get(key, 0) + covered_area/total_area
         granulation_teff = self.teff - self.granulation.dteff
-        # initialize. This way it's okay if there's something else with that Teff too.
-        if granulation_teff not in teffs:
-            total_data[f'{granulation_teff:.2f}'] = 0
-            covered_data[f'{granulation_teff:.2f}'] = 0
+        # initialize. This way it's okay if there's something else with that Teff too,
+        # or if there is no quiet photosphere left.
+        for key in (f'{self.teff:.2f}', f'{granulation_teff:.2f}'):
+            total_data.setdefault(key, 0)
+            covered_data.setdefault(key, 0)
 
         phot_frac = total_data[f'{self.teff:.2f}']
         total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
-- 
2.43.0


From 0e2a112f64ffa224aec277ff524bd69835eea900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:44 +0000
Subject: [PATCH 17/29] fix: Facula.effective_area refuses wall and floor that
 round to the same Teff

The result is keyed by the rounded temperatures; the wall area was silently lost
when they coincide, and drawing such a facula failed while unpacking.
---
 vspec_vsm/faculae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index f8493f3..9298b2d 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -242,7 +242,7 @@ class Facula:
 
         
         """
-        if self.floor_dteff == self.wall_dteff:
+        if round_teff(self.floor_dteff) == round_teff(self.wall_dteff):
             raise ValueError(
                 'Wall and Floor teff are equal. This is not allowed.')
         if self.radius < self.floor_teff_min_rad:
-- 
2.43.0


From 96423c2b19225942141ce2a10b27a871c1faecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:44 +0000
Subject: [PATCH 18/29] fix: granulation coverage is finite for dense sampling
 and zero amplitude

The covariance was factored in single precision without any diagonal term, giving
NaN for e.g. 300 samples in ten days (and for amplitude 0), which the star then
reported as no granulation at all.
---
 vspec_vsm/granules.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vspec_vsm/granules.py b/vspec_vsm/granules.py
index cbd44de..7578c54 100644
--- a/vspec_vsm/granules.py
+++ b/vspec_vsm/granules.py
@@ -5,6 +5,7 @@ Granulation
 
 """
 import jax
+import jax.experimental
 import jax.numpy as jnp
 from tinygp import kernels, GaussianProcess
 from astropy import units as u
@@ -63,7 +64,7 @@ def build_gp(params: dict, X: np.ndarray) -> GaussianProcess:
     return GaussianProcess(
         kernel,
         X,
-        diag=0,
+        diag=1e-12,  # keep the covariance positive definite
         mean=params['mean']
     )
 
@@ -158,7 +159,9 @@ class Granulation:
         np.ndarray
             The coverage corresponding to each point in `time`.
         """
-        key = jax.random.PRNGKey(seed=self.seed)
-        gp = self._build_gp(time.to_value(time_unit))
-        coverage = gp.sample(key)
+        # single precision is not enough to factor the covariance of densely sampled times
+        with jax.experimental.enable_x64():
+            key = jax.random.PRNGKey(seed=self.seed)
+            gp = self._build_gp(time.to_value(time_unit))
+            coverage = gp.sample(key)
         return save_cast_coverage(np.array(coverage))
-- 
2.43.0


From c85b32601ad674f7cc42e6b342305a1ad6118565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:44 +0000
Subject: [PATCH 19/29] fix: FaculaGenerator.mean_area averages the area a
 facula really has

The radius changes as exp(-2t/lifetime), so the area goes as exp(-4t/lifetime); the
formula averaged exp(-2t/lifetime) and the equilibrium coverage came out 43% low.
---
 vspec_vsm/faculae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 9298b2d..7369277 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -614,11 +614,11 @@ class FaculaGenerator:
         The time-averaged area of a typical facula.
 
         .. math::
-            \\bar{A} = \\frac{ \\pi r_0 ^2 (1-e^{-2}) }{2}
+            \\bar{A} = \\frac{ \\pi r_0 ^2 (1-e^{-4}) }{4}
 
         :type: astropy.units.Quantity
         """
-        return 0.5 * np.pi * (1-np.e**-2) * self.dist_r_peak**2
+        return 0.25 * np.pi * (1-np.e**-4) * self.dist_r_peak**2
 
     def get_n_faculae_expected(self, time: u.Quantity, rad_star: u.Quantity) -> float:
         """
-- 
2.43.0


From 8aac62c0f2f671fe7a41abb830d24556c22f3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:44 +0000
Subject: [PATCH 20/29] fix: SpotGenerator.mean_area integrates the growth
 spots really have

The integral of exponential growth from A0 to Amax is (Amax - A0)/rate, not
(Amax + A0)/rate, with the rate log(1 + growth_rate) that StarSpot.age applies;
otherwise the births do not lead to the requested equilibrium coverage.
---
 vspec_vsm/spots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index e574866..3a9418e 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -671,8 +671,10 @@ class SpotGenerator:
         if self.is_static:
             return self.dist_area_mean
         else:
-            integrated_area = (self.dist_area_mean / self.growth_rate) \
-                + (self.init_area / self.growth_rate) \
+            # the exponential rate applied by ``StarSpot.age``
+            growth_rate = np.log(1 + (self.growth_rate*u.day).to(u.dimensionless_unscaled))/u.day
+            integrated_area = (self.dist_area_mean / growth_rate) \
+                - (self.init_area / growth_rate) \
                 + (self.dist_area_mean**2/2/self.decay_rate)
             return integrated_area / self.mean_lifetime
 
-- 
2.43.0


From 5ed185e5a0f7ceef69438fd2536b69e08b03db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:30 +0000
Subject: [PATCH 21/29] fix: Granulation accepts an integer mean coverage

Sampling took the dtype of the mean, and normal deviates cannot be integers.
---
 vspec_vsm/granules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/granules.py b/vspec_vsm/granules.py
index 7578c54..dff0990 100644
--- a/vspec_vsm/granules.py
+++ b/vspec_vsm/granules.py
@@ -115,7 +115,7 @@ class Granulation:
             seed:int = np.random.randint(1, None)
     ):
         self.params = dict(
-            mean=mean_coverage,
+            mean=float(mean_coverage),
             scale=amplitude,
             period=period.to_value(time_unit)
         )
-- 
2.43.0


From a7714b504bdb41bda36f9bbfd7f27c36ff2ec49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:40 +0000
Subject: [PATCH 22/29] fix: generate_mature_spots counts the solid angle spots
 really cover

The flat-disk formula overestimates the solid angle of large spots, so that
the generated spots covered less of the sphere than requested.
---
 vspec_vsm/spots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 3a9418e..af844ad 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -839,6 +839,8 @@ class SpotGenerator:
                 age = self.rng.random() * self.mean_lifetime
                 new_spot.age(age)
             spots.append(new_spot)
-            spot_solid_angle = new_spot.angular_radius(r_star)**2 * np.pi
+            # the solid angle of the spherical cap, not of a flat disk of the same angular radius
+            spot_solid_angle = (new_spot.area_current/r_star**2).to_value(
+                u.dimensionless_unscaled)*u.steradian
             current_omega += spot_solid_angle
         return spots
-- 
2.43.0


From 0c340f62ab4c2d20c1815fd58951b0a5a480e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 23/29] fix: SpotGenerator.mean_area of spots that never grow

With a growth rate of zero the mean area was NaN, so the expected number of
births was NaN and birth_spots raised a ValueError.
---
 vspec_vsm/spots.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index af844ad..098d3fa 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -670,6 +670,9 @@ class SpotGenerator:
         """
         if self.is_static:
             return self.dist_area_mean
+        elif self.growth_rate == 0/u.day:
+            # spots never reach the area from which they decay
+            return self.init_area
         else:
             # the exponential rate applied by ``StarSpot.age``
             growth_rate = np.log(1 + (self.growth_rate*u.day).to(u.dimensionless_unscaled))/u.day
-- 
2.43.0


From ca01acc24513d3bc75c8610f1ac4dbfd78a0679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:46 +0000
Subject: [PATCH 24/29] fix: generate_mature_spots with spots that never grow

With a growth rate of zero the mean lifetime is infinite and ageing a spot by a
share of it made its area NaN, ending the generation with a NaN coverage.
---
 vspec_vsm/spots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 098d3fa..1747916 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -652,7 +652,7 @@ class SpotGenerator:
         mean_lifetime : astropy.units.Quantity
             The mean lifetime of spots.
         """
-        if self.is_static:
+        if self.is_static or self.growth_rate == 0/u.day:
             return np.inf * u.day
         else:
             return ((self.dist_area_mean/self.decay_rate)
@@ -833,7 +833,7 @@ class SpotGenerator:
         target_omega = (4*np.pi*coverage*u.steradian).to(u.deg**2)
         while current_omega < target_omega:
             new_spot = self.generate_spots(1)[0]
-            if self.is_static:
+            if np.isinf(self.mean_lifetime):
                 area0 = self.init_area
                 area_range = new_spot.area_max - area0
                 area = self.rng.random()*area_range + area0
-- 
2.43.0


From eb5e90331492295c265521eae6738837d7486ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:16 +0000
Subject: [PATCH 25/29] fix: proj_ortho of an observer within rounding of a
 pole

When the latitude is not exactly 90 deg after unit conversion, the spherical law
of cosines divides rounding errors by sin(b)~1e-16 and the projection is garbage.
---
 vspec_vsm/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index c3a9199..1ffeb32 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -179,10 +179,10 @@ def proj_ortho(
     lats: np.ndarray = lats.to_value(u.rad)
     b = np.pi/2 - lat0
     c = np.pi/2 - lats
-    if b == 0:  # centered on north pole
+    if b < 1e-8:  # centered on north pole, up to rounding
         a = c
         C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
-    elif b == np.pi:  # centered on south pole
+    elif np.pi - b < 1e-8:  # centered on south pole
         a = c
         C = np.where(c >= np.pi/2, lons-lon0, np.nan)
     else:  # centered elsewhere
-- 
2.43.0


From 9d639bec1745307ae8deb1ddeeed94a25d6d6a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:58 +0000
Subject: [PATCH 26/29] fix: keep the area of a decaying spot from rounding
 below zero

---
 vspec_vsm/spots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 1747916..a6457a3 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -308,13 +308,15 @@ class StarSpot:
                 if area_decay > self.area_max:
                     self.area_current = 0*MSH
                 else:
-                    self.area_current = self.area_max - area_decay
+                    self.area_current = np.maximum(
+                        self.area_max - area_decay, 0*MSH)
         else:
             area_decay = time * self.decay_rate
             if area_decay > self.area_current:
                 self.area_current = 0*MSH
             else:
-                self.area_current = self.area_current - area_decay
+                self.area_current = np.maximum(
+                    self.area_current - area_decay, 0*MSH)
 
 
 class SpotCollection:
-- 
2.43.0


From 5cb18afac45289a7268eb5f461200ddf2faafaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:42 +0000
Subject: [PATCH 27/29] fix: a rectangular grid refuses display data that is
 not of its own shape

---
 vspec_vsm/coordinate_grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vspec_vsm/coordinate_grid.py b/vspec_vsm/coordinate_grid.py
index de95106..031cdf0 100644
--- a/vspec_vsm/coordinate_grid.py
+++ b/vspec_vsm/coordinate_grid.py
@@ -402,6 +402,8 @@ class RectangularGrid(CoordinateGrid):
             raise TypeError('data must have shape (nlon, nlat)')
         if not data.shape[1] == nlat:
             raise TypeError('data must have shape (nlon, nlat)')
+        if not (nlat == self.nlat and nlon == self.nlon):
+            raise TypeError('nlat and nlon must be those of the grid')
         lats, lons = self.oned()
         return lats.to_value(u.rad), lons.to_value(u.rad), data
 
-- 
2.43.0


From d4b68123bb7efa5b46f4890aaa67a30329d1b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:28 +0000
Subject: [PATCH 28/29] fix: a spot larger than the star covers all of it
 instead of vanishing

---
 vspec_vsm/spots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index a6457a3..d798ef5 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -186,6 +186,8 @@ class StarSpot:
             The angular radius of the spot.
         """
         cos_angle = 1 - self.area_current/(2*np.pi*star_rad**2)
+        # a spot that is larger than the star covers all of it
+        cos_angle = np.clip(cos_angle, -1, 1)
         return (np.arccos(cos_angle)).to(u.deg)
 
     def map_pixels(self, star_rad: Quantity) -> dict:
-- 
2.43.0


From 9cfd55c2a1e939b212631f65296ebd64d60a58c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:16 +0000
Subject: [PATCH 29/29] fix: strong granulation sampled densely gave NaN (and
 silently zero on a star)

---
 vspec_vsm/granules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/granules.py b/vspec_vsm/granules.py
index dff0990..120e56d 100644
--- a/vspec_vsm/granules.py
+++ b/vspec_vsm/granules.py
@@ -61,10 +61,12 @@ def build_gp(params: dict, X: np.ndarray) -> GaussianProcess:
 
     """
     kernel = GranulationKernel(params['scale'], params['period'])
+    # keep the covariance positive definite, whatever its scale
+    diag = 1e-12 * jnp.maximum(1.0, kernel.evaluate(0.0, 0.0))
     return GaussianProcess(
         kernel,
         X,
-        diag=1e-12,  # keep the covariance positive definite
+        diag=diag,
         mean=params['mean']
     )
 
-- 
2.43.0

