From 770fb7494366769074d51d149275b262e980ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 01/69] fix: RPC cubic used lat^2*lon for coefficient 19
 instead of lat^2*height

---
 .../earth_overhead_point_calculators/rpc_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
index 0f27d9d..83bf413 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
@@ -182,7 +182,7 @@ class RPCPointCalc(AbstractEarthOverheadPointCalc):
 
         p = a1 + a2*y + a3*x + a4*z + a5*xy + a6*yz + a7*xz + a8 * y_squared + \
             a9*x_squared + a10*z_squared + a11*x*y*z + a12*y_cubed + a13*y*x_squared + a14*y*z_squared + \
-            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*y + a20*z_cubed
+            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*z + a20*z_cubed
         return p
 
     def _lon_lat_alt_to_pixel_x_y_native(self,
-- 
2.43.0


From f0a12bc7b2d6f74c2aadd308bc17e6fbce78288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 02/69] fix: UTM zone passed to pyproj as '18T' instead of the
 zone number

---
 resippy/utils/proj_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/proj_utils.py b/resippy/utils/proj_utils.py
index f1d1bb2..0776556 100644
--- a/resippy/utils/proj_utils.py
+++ b/resippy/utils/proj_utils.py
@@ -32,5 +32,5 @@ def decimal_degrees_to_local_utm_proj(lon_decimal_degrees,      # type: float
     zone_string = str(zone_info[2]) + zone_info[3]
     zone_letter = zone_string[-1]
     is_south_zone = zone_letter < 'N'
-    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_string, south=is_south_zone)
+    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_info[2], south=is_south_zone)
     return local_proj
-- 
2.43.0


From 003c4ef7e0f42aafd4c6c31445e36d21ee9dac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 03/69] fix: numpy.int no longer exists (ray caster, ortho,
 chipper failed on every call)

---
 .../abstract_earth_overhead_point_calc.py                     | 2 +-
 resippy/photogrammetry/ortho_tools.py                         | 4 ++--
 resippy/utils/image_utils/image_chipper.py                    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 0266a9b..4314d49 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -362,7 +362,7 @@ class AbstractEarthOverheadPointCalc:
         all_elevations = dem.get_elevations(np.array(lons_matrix), np.array(lats_matrix), world_proj=self.get_projection())
 
         ray = np.linspace(max_alt, min_alt, n_steps_per_ray)
-        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=np.int)
+        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=int)
         ray_step_indices = list(range(n_steps_per_ray))
         ray_step_indices.reverse()
         for i in ray_step_indices:
diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6c5443b..aec6287 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -34,12 +34,12 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                      ):  # type: (...) -> ndarray
 
     nodata = image_object.get_metadata().get_nodata_val()
-    wh = np.round(window/2.0).astype(np.int)
+    wh = np.round(window/2.0).astype(int)
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
         img = image_object.read_band_from_disk(band)
         x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-        locs = zip(np.round(x).astype(np.int), np.round(y).astype(np.int))
+        locs = zip(np.round(x).astype(int), np.round(y).astype(int))
         vals = []
         for item in locs:
             try:
diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index afe9b84..90e6407 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -86,7 +86,7 @@ def chip_images_by_pixel_upper_lefts(input_image,                   # type: ndar
     n_chips = len(pixel_y_ul_list)
 
     if bands is None:
-        bands = np.arange(0, nbands).astype(np.int)
+        bands = np.arange(0, nbands).astype(int)
     else:
         nbands = len(bands)
 
-- 
2.43.0


From 1c043fc99cc689b5419b9c7b8cb8d2b39f7e83a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 04/69] fix: third Pix4D radial distortion coefficient was read
 from the second

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index adc58ea..6931343 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -100,7 +100,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         point_calc.tangential_distortion_2 = all_params[image_key_basename]['tangential_distortion'][1]
         point_calc.radial_distortion_1 = all_params[image_key_basename]['radial_distortion'][0]
         point_calc.radial_distortion_2 = all_params[image_key_basename]['radial_distortion'][1]
-        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][1]
+        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][2]
         point_calc.distortion_model = distortion_model
 
         approximate_lon = all_params[image_key_basename]['external_params'][0]
-- 
2.43.0


From 57429724a898c774291008007b289aca350fd7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 05/69] fix: constant altitude given to the IGM point
 calculator was replaced by zero

---
 .../earth_overhead_point_calculators/igm_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
index d5c7729..994c27d 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
@@ -22,7 +22,7 @@ class IGMPointCalc(AbstractEarthOverheadPointCalc):
         self._npix_y, self._npix_x = lon_array.shape
         self.set_projection(projection)
         if isinstance(alt_array, numbers.Number):
-            self._alts = numpy.zeros_like(lon_array)
+            self._alts = numpy.full(lon_array.shape, float(alt_array))
         else:
             self._alts = alt_array
         self._bands_coregistered = True
-- 
2.43.0


From af6d81b63c34ea8b625df4de63dfdcb380c093db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 06/69] fix: ray caster failed on flat terrain (one step per
 ray)

---
 .../abstract_earth_overhead_point_calc.py              | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 4314d49..d2ef263 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -336,6 +336,16 @@ class AbstractEarthOverheadPointCalc:
             min_alt = dem.get_lowest_alt()
         alt_range = max_alt - min_alt
 
+        if alt_range == 0:
+            # flat terrain, every ray meets it at the same altitude
+            lons, lats = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, max_alt, band=band)
+            flat_alts = np.zeros(n_pixels_to_project) + max_alt
+            if is2d:
+                lons = image_utils.unflatten_image_band(lons, nx, ny)
+                lats = image_utils.unflatten_image_band(lats, nx, ny)
+                flat_alts = image_utils.unflatten_image_band(flat_alts, nx, ny)
+            return lons, lats, flat_alts
+
         # put the max and min alts at 1 percent above and below the maximum returned by the DEM
         max_alt = max_alt + alt_range * 0.01
         min_alt = min_alt - alt_range * 0.01
-- 
2.43.0


From aef6eaae252d37d6c8080391eba5aee6b974b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 07/69] fix: DEM classes did not initialise the fields of their
 base class (get_reference/get_projection failed)

---
 resippy/photogrammetry/dem/constant_elevation_dem.py | 1 +
 resippy/photogrammetry/dem/geotiff_dem.py            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/resippy/photogrammetry/dem/constant_elevation_dem.py b/resippy/photogrammetry/dem/constant_elevation_dem.py
index ce82fd2..a120947 100644
--- a/resippy/photogrammetry/dem/constant_elevation_dem.py
+++ b/resippy/photogrammetry/dem/constant_elevation_dem.py
@@ -8,6 +8,7 @@ import resippy.photogrammetry.crs_defs as crs_defs
 
 class ConstantElevationDem(AbstractDem):
     def __init__(self, elevation=0):
+        super(ConstantElevationDem, self).__init__()
         self.elevation = elevation
 
     def get_elevations(self,
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 27f66a2..88ac1f2 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -10,6 +10,7 @@ import gdal
 
 class GeotiffDem(AbstractDem):
     def __init__(self):
+        super(GeotiffDem, self).__init__()
         self.dem_data = None
         self.gtiff = GeotiffImage
         self.nodata_value = None
-- 
2.43.0


From c0630484b19a786663be396339ca5fdd5d08ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 08/69] fix: point calculators that skipped the base
 initialiser failed in get_projection / get_approximate_lon_lat_center

---
 .../earth_overhead_point_calculators/geotiff_point_calc.py       | 1 +
 .../earth_overhead_point_calculators/igm_point_calc.py           | 1 +
 .../earth_overhead_point_calculators/rpc_point_calc.py           | 1 +
 3 files changed, 3 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
index 25d1639..76dba94 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/geotiff_point_calc.py
@@ -16,6 +16,7 @@ class GeotiffPointCalc(AbstractEarthOverheadPointCalc):
     """
 
     def __init__(self):
+        super(GeotiffPointCalc, self).__init__()
         self._geo_t = None
         self._inv_geo_t = None
         self._npix_x = None
diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
index 994c27d..73b4aba 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
@@ -17,6 +17,7 @@ class IGMPointCalc(AbstractEarthOverheadPointCalc):
                  alt_array,  # type: Union[ndarray, float]
                  projection,  # type:  Proj
                  ):
+        super(IGMPointCalc, self).__init__()
         self._lons = lon_array
         self._lats = lat_array
         self._npix_y, self._npix_x = lon_array.shape
diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
index 83bf413..050711b 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
@@ -15,6 +15,7 @@ class RPCPointCalc(AbstractEarthOverheadPointCalc):
     """
 
     def __init__(self):
+        super(RPCPointCalc, self).__init__()
         self._samp_num_coeff = None      # type: ndarray
         self._samp_den_coeff = None       # type: ndarray
         self._samp_scale = None          # type: float
-- 
2.43.0


From c72aeea0375b58c047d91c87e404d28c38546355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 09/69] fix: unsupported DEM interpolation method was accepted
 silently (TypeError built but not raised)

---
 resippy/photogrammetry/dem/dem_factory.py | 2 +-
 resippy/photogrammetry/dem/geotiff_dem.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/dem/dem_factory.py b/resippy/photogrammetry/dem/dem_factory.py
index eaf753c..49eec31 100644
--- a/resippy/photogrammetry/dem/dem_factory.py
+++ b/resippy/photogrammetry/dem/dem_factory.py
@@ -25,7 +25,7 @@ class DemFactory:
         elif interpolation_method == 'nearest':
             gtiff_dem.set_interpolation_to_nearest()
         else:
-            TypeError("interpolation method should either be 'bilinear' or 'nearest'")
+            raise TypeError("interpolation method should either be 'bilinear' or 'nearest'")
         return gtiff_dem
 
     @staticmethod
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 88ac1f2..20cb788 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -130,7 +130,7 @@ class GeotiffDem(AbstractDem):
             elevations = np.average(elevations_arr, weights=weights_arr, axis=0,)
 
         else:
-            TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
+            raise TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
                       "when getting elevations from a GeoTiff DEM")
 
         # unflatten world_xyz arrays if the original inputs were 2d
-- 
2.43.0


From 8594c5af341dd4021e95662d1dc3751ac612efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 10/69] fix: bilinear DEM interpolation weighted pixels by
 distance (far pixels counted most, division by zero at pixel positions)

---
 resippy/photogrammetry/dem/geotiff_dem.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 20cb788..5534ee0 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -114,20 +114,14 @@ class GeotiffDem(AbstractDem):
             elevations_y2x1 = self.dem_data[pixel_locs_y_2, pixel_locs_x_1]
             elevations_y2x2 = self.dem_data[pixel_locs_y_2, pixel_locs_x_2]
 
-            x_distances_1 = pixel_locs_x - pixel_locs_x_1
-            x_distances_2 = pixel_locs_x_2 - pixel_locs_x
-            y_distances_1 = pixel_locs_y - pixel_locs_y_1
-            y_distances_2 = pixel_locs_y_2 - pixel_locs_y
+            # the closer a pixel is, the larger its weight
+            x_weight = pixel_locs_x - pixel_locs_x_1
+            y_weight = pixel_locs_y - pixel_locs_y_1
 
-            distances_y1x1 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_1))
-            distances_y1x2 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_2))
-            distances_y2x1 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_1))
-            distances_y2x2 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_2))
+            elevations_y1 = elevations_y1x1 * (1 - x_weight) + elevations_y1x2 * x_weight
+            elevations_y2 = elevations_y2x1 * (1 - x_weight) + elevations_y2x2 * x_weight
 
-            elevations_arr = np.array((elevations_y1x1, elevations_y1x2, elevations_y2x1, elevations_y2x2))
-            weights_arr = np.array((distances_y1x1, distances_y1x2, distances_y2x1, distances_y2x2))
-
-            elevations = np.average(elevations_arr, weights=weights_arr, axis=0,)
+            elevations = elevations_y1 * (1 - y_weight) + elevations_y2 * y_weight
 
         else:
             raise TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
-- 
2.43.0


From c84e37974db53db3a71642f520f833894d0790fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 11/69] fix: DEM with integer samples and a nodata value could
 not be loaded

---
 resippy/photogrammetry/dem/geotiff_dem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 5534ee0..42b62ac 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -65,6 +65,8 @@ class GeotiffDem(AbstractDem):
         self.nodata_value = nodata_value
         if self.nodata_value is not None:
             if self.dem_data is not None:
+                if not np.issubdtype(self.dem_data.dtype, np.floating):
+                    self.dem_data = self.dem_data.astype(float)
                 self.dem_data[np.where(self.dem_data == nodata_value)] = np.nan
 
     def set_geotiff_image(self,
-- 
2.43.0


From 6399efb70904b76cb8804e943a3190ce766a40d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 12/69] fix: ortho geotransform did not match the ground grid
 the pixels are sampled on

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 6d81595..19eee46 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -40,8 +40,8 @@ def world_poly_to_geo_t(world_polygon,      # type: Polygon
                         ):                  # type: (...) -> list
     envelope = world_polygon.envelope
     minx, miny, maxx, maxy = envelope.bounds
-    gsd_x = (maxx - minx)/(npix_x + 1)
-    gsd_y = (maxy - miny)/(npix_y + 1)
+    gsd_x = (maxx - minx)/npix_x
+    gsd_y = (maxy - miny)/npix_y
     geot = [minx, gsd_x, 0, maxy, 0, -1*gsd_y]
     return geot
 
-- 
2.43.0


From 2a6ede19f81d7a846e2f90a0be92a4cc51562e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 13/69] fix: ground grid with a single row or column raised
 IndexError

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 19eee46..a85ad87 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -59,8 +59,8 @@ def create_ground_grid(min_x,   # type: float
     ground_y_arr = ground_y_arr/npix_y*(max_y - min_y)
     ground_x_arr = ground_x_arr + min_x
     ground_y_arr = ground_y_arr + min_y
-    x_gsd = np.abs(ground_x_arr[0, 1] - ground_x_arr[0, 0])
-    y_gsd = np.abs(ground_y_arr[0, 0] - ground_y_arr[1, 0])
+    x_gsd = np.abs(max_x - min_x)/npix_x
+    y_gsd = np.abs(max_y - min_y)/npix_y
     return ground_x_arr + x_gsd/2.0, ground_y_arr - y_gsd/2.0
 
 
-- 
2.43.0


From f431351cfd594f290b61eccb33c3b0e7bcd95feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 14/69] fix: get_image_band raised TypeError instead of letting
 callers read the band from disk

---
 resippy/image_objects/abstract_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/abstract_image.py b/resippy/image_objects/abstract_image.py
index 878506c..55c6fdc 100644
--- a/resippy/image_objects/abstract_image.py
+++ b/resippy/image_objects/abstract_image.py
@@ -87,8 +87,10 @@ class AbstractImage():
         """
         Gets a particular image band of the image object's _image_data class variable.  band_num is zero-based.
         :param band_num: band number to get
-        :return: image band of dimensions (ny, nx)
+        :return: image band of dimensions (ny, nx), None if no image data has been loaded
         """
+        if self._image_data is None:
+            return None
         return self._image_data[:, :, band_num]
 
     def set_image_band(self,
-- 
2.43.0


From 646265cc3ad8830c81998799ac1c39b04636e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 15/69] fix: get_pixel_lon_lats looked up terrain without the
 projection of its coordinates

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index aec6287..782b782 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -80,7 +80,7 @@ def get_pixel_lon_lats(overhead_image,  # type: AbstractEarthOverheadImage
                                                                      pixel_error_threshold=pixel_error_threshold,
                                                                      max_iter=max_iter)
     # get differences from the highest alt using the dem
-    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest)
+    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest, world_proj=point_calc.get_projection())
     new_alts = alts - alt_diff
     lons_low, lats_low = point_calc.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, new_alts,
                                                              band=band,
-- 
2.43.0


From 3790164dde151535a1e19fe1b295300e16ed5483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 16/69] fix: pixel windows left of or above the image wrapped
 to the opposite edge

---
 resippy/photogrammetry/ortho_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 782b782..2950c0a 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -43,10 +43,10 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
         vals = []
         for item in locs:
             try:
-                xmin = item[0] - wh
-                xmax = item[0] + wh
-                ymin = item[1] - wh
-                ymax = item[1] + wh
+                xmin = max(item[0] - wh, 0)
+                xmax = max(item[0] + wh, 0)
+                ymin = max(item[1] - wh, 0)
+                ymax = max(item[1] + wh, 0)
                 pix_win = img[ymin:ymax, xmin:xmax]
                 good_inds = pix_win != nodata
                 val = np.mean(pix_win[good_inds])
-- 
2.43.0


From e077d78c9028044689a2995b95ae2341b50eab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 17/69] fix: full ortho without a gsd failed (pixel positions
 passed as lists)

---
 resippy/photogrammetry/ortho_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 2950c0a..34282d1 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -128,8 +128,8 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         native_lons, native_lats = get_pixel_lon_lats(overhead_image,
                                                       dem,
                                                       bands,
-                                                      pixels_x=[0, nx-1, 0],
-                                                      pixels_y=[0, 0, ny-1])
+                                                      pixels_x=np.array([0, nx-1, 0]),
+                                                      pixels_y=np.array([0, 0, ny-1]))
         local_lons, local_lats = transform(overhead_image.pointcalc.get_projection(), local_proj, native_lons, native_lats)
         distance_along_x = math.sqrt((local_lons[1] - local_lons[0]) ** 2 + (local_lats[1] - local_lats[0]) ** 2)
         distance_along_y = math.sqrt((local_lons[2] - local_lons[0]) ** 2 + (local_lats[2] - local_lats[0]) ** 2)
-- 
2.43.0


From d1dea9b161240425d13f6f60343b9dfa27c80a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 18/69] fix: image extent was simplified by 0.001 degrees (~100
 m), cutting off image corners

---
 resippy/photogrammetry/ortho_tools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 34282d1..056beb7 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -371,9 +371,7 @@ def get_extent(overhead_image,  # type: AbstractEarthOverheadImage
         all_band_lats = np.append(all_band_lats, lats)
 
     extents = [(MultiPoint(list(zip(all_band_lons, all_band_lats))))]
-    # TODO, check into whether we can get rid of this tolerance, also, this isn't a very good approach, since it assumes
-    # TODO a particular CRS (probably 4326)
-    return unary_union(extents).convex_hull.simplify(0.001)
+    return unary_union(extents).convex_hull.simplify(0)
 
 
 def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEarthOverheadImage
-- 
2.43.0


From 3ff3beac136d653caaae7d61062fd6c8ba68aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 19/69] fix: full ortho mixed native map units, meters and the
 output projection

---
 resippy/photogrammetry/ortho_tools.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 056beb7..d6e4c60 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -17,7 +17,7 @@ from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffIm
 from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
 from resippy.photogrammetry.dem.abstract_dem import AbstractDem
 from resippy.photogrammetry import crs_defs as crs_defs
-from resippy.utils.photogrammetry_utils import create_ground_grid, world_poly_to_geo_t
+from resippy.utils.photogrammetry_utils import create_ground_grid, world_poly_to_geo_t, reproject_geometry
 from resippy.utils import proj_utils
 from pyproj import transform
 from resippy.photogrammetry.dem.dem_factory import DemFactory
@@ -137,14 +137,18 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         gsd_y = distance_along_y / ny
         gsd_meters = (gsd_x + gsd_y) / 2.0
 
-    ortho_x_dist = np.abs(extent.bounds[2] - extent.bounds[0])
-    ortho_y_dist = np.abs(extent.bounds[3] - extent.bounds[1])
+    native_proj = overhead_image.pointcalc.get_projection()
+    local_bounds = reproject_geometry(extent, native_proj, local_proj).bounds
+    ortho_x_dist = np.abs(local_bounds[2] - local_bounds[0])
+    ortho_y_dist = np.abs(local_bounds[3] - local_bounds[1])
 
-    ortho_nx = int(ortho_x_dist / gsd_meters)
-    ortho_ny = int(ortho_y_dist / gsd_meters)
+    ortho_nx = int(np.round(ortho_x_dist / gsd_meters))
+    ortho_ny = int(np.round(ortho_y_dist / gsd_meters))
 
     if output_proj is None:
-        output_proj = overhead_image.pointcalc.get_projection()
+        output_proj = native_proj
+    else:
+        extent = reproject_geometry(extent, native_proj, output_proj)
     return create_ortho_gtiff_image_world_to_sensor(overhead_image,
                                                     ortho_nx,
                                                     ortho_ny,
-- 
2.43.0


From e1b825c1cd9d364ecc0b4fb6b40c7346e1ea7c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 20/69] fix: ortho of an image without co-registered bands left
 out-of-image pixels at 0 instead of nodata

---
 resippy/photogrammetry/ortho_tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index d6e4c60..317b891 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -220,6 +220,12 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
 
             regridded = image_utils.unflatten_image_band(regridded, ortho_nx_pix, ortho_ny_pix)
             regridded = regridded.astype(im_tp)
+
+            regridded[np.where(pixels_x <= 0)] = nodata_val
+            regridded[np.where(pixels_x >= overhead_image.metadata.get_npix_x() - 2)] = nodata_val
+
+            regridded[np.where(pixels_y <= 0)] = nodata_val
+            regridded[np.where(pixels_y >= overhead_image.metadata.get_npix_y() - 2)] = nodata_val
             images.append(regridded)
     else:
         pixels_x, pixels_y = overhead_image.get_point_calculator(). \
-- 
2.43.0


From a8498feb5bef08e1b96a6e2d3a3dafb8f24a814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 21/69] fix: obstruction test looked up terrain without the
 projection of its coordinates

---
 resippy/photogrammetry/ortho_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 317b891..6199873 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -397,11 +397,12 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     DEFAULT_DEM_RESOLUTION = 5
     if dem_resolution is None:
         dem_resolution = DEFAULT_DEM_RESOLUTION
+    world_proj = earth_overhead_image.get_point_calculator().get_projection()
     highest_alts = np.zeros_like(pixels_x)
     highest_alts[:] = dem.get_highest_alt() + 0.001
 
     if alts is None:
-        alts = dem.get_elevations(lons, lats)
+        alts = dem.get_elevations(lons, lats, world_proj=world_proj)
 
     obstructed_mask = np.zeros_like(lons)
 
@@ -415,7 +416,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     for step in np.arange(1, n_dem_steps):
         test_lons = lons + lon_diffs * (step) / n_dem_steps
         test_lats = lats + lat_diffs * (step) / n_dem_steps
-        test_alts = dem.get_elevations(test_lons, test_lats)
+        test_alts = dem.get_elevations(test_lons, test_lats, world_proj=world_proj)
         obstruction_heights = alts + vertical_distances * step / n_dem_steps
         obstructed_mask[np.where(test_alts > obstruction_heights)] = 1
     return obstructed_mask
-- 
2.43.0


From f4330860f73b55890b3eb1fc09791b9dc8b28da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 22/69] fix: obstruction test truncated the highest altitude to
 whole units for integer pixel positions

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6199873..6da03f6 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -398,7 +398,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     if dem_resolution is None:
         dem_resolution = DEFAULT_DEM_RESOLUTION
     world_proj = earth_overhead_image.get_point_calculator().get_projection()
-    highest_alts = np.zeros_like(pixels_x)
+    highest_alts = np.zeros_like(pixels_x, dtype=float)
     highest_alts[:] = dem.get_highest_alt() + 0.001
 
     if alts is None:
-- 
2.43.0


From 2ac2ea526e13650b2f7afd212b8d6a015eb97abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 23/69] fix: obstruction test skipped rays whose x and y
 offsets cancel (distance of the sum, not of the vector)

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6da03f6..cc0936d 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -409,7 +409,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     lons_highest, lats_highest = earth_overhead_image.get_point_calculator().pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, highest_alts, band=band)
     lon_diffs = lons - lons_highest
     lat_diffs = lats - lats_highest
-    horizontal_distances = np.sqrt(np.square(lon_diffs + lat_diffs))
+    horizontal_distances = np.sqrt(np.square(lon_diffs) + np.square(lat_diffs))
     vertical_distances = highest_alts - alts
     max_horizontal_distance = horizontal_distances.max()
     n_dem_steps = max_horizontal_distance / dem_resolution
-- 
2.43.0


From a2f577e17da3c2fadcf1597013e1a8c82eeb18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 24/69] fix: obstruction test walked away from the sensor
 instead of towards it

---
 resippy/photogrammetry/ortho_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index cc0936d..c8ffda5 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -414,8 +414,8 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     max_horizontal_distance = horizontal_distances.max()
     n_dem_steps = max_horizontal_distance / dem_resolution
     for step in np.arange(1, n_dem_steps):
-        test_lons = lons + lon_diffs * (step) / n_dem_steps
-        test_lats = lats + lat_diffs * (step) / n_dem_steps
+        test_lons = lons - lon_diffs * (step) / n_dem_steps
+        test_lats = lats - lat_diffs * (step) / n_dem_steps
         test_alts = dem.get_elevations(test_lons, test_lats, world_proj=world_proj)
         obstruction_heights = alts + vertical_distances * step / n_dem_steps
         obstructed_mask[np.where(test_alts > obstruction_heights)] = 1
-- 
2.43.0


From eace8a0d7c896b988a5d2d18662113c54704d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 25/69] fix: fractional nodata values were truncated (and NaN
 failed) when writing GeoTIFFs

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 7b6244f..3405f7f 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -115,7 +115,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(float(self.get_metadata().get_nodata_val()))
         return dataset
 
     def write_to_disk(self,
@@ -139,7 +139,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(float(self.get_metadata().get_nodata_val()))
         dataset.FlushCache()
         dataset = None
 
-- 
2.43.0


From 02a060e480ef0d4d0a180b1367278d4b8835baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 26/69] fix: reproject_vertical_datum called an undefined
 function

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 3405f7f..e128fcb 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -174,7 +174,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         dst_epsg = 'EPSG:' + str(srs.GetAuthorityCode(None)) + "+" + str(datum_epsg_code)
 
         ops = gdal.WarpOptions(dstSRS=dst_epsg)
-        return gdalwarp_geoTiffImage(geotiff_image, dst_fname, ops)
+        return GeotiffImage.gdalwarp_geotiff_image(geotiff_image, ops, dst_fname=dst_fname)
 
     def create_map_tiles(self, out_dir, gdalwarp_ops=None):
         # keep this import statement in here until all OS / pip related issues with installing gdal2tiles are resolved.
-- 
2.43.0


From 5a3fd2f28ea8e94868bfa530f19c9b4056cea43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 27/69] fix: create_map_tiles passed the warp options as the
 image

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index e128fcb..946722f 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -182,7 +182,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         tmp_filename = "/tmp/tmp_gdalwarp.tif"
         gdal_warp_options = gdal.WarpOptions(dstSRS="EPSG:3857")
         mem_fname = "/vsimem/tmp_gdalwarp_geotiff.vrt"
-        gtiff_3857 = self.gdalwarp_geotiff_image(gdal_warp_options, dst_fname=mem_fname) # type: GeotiffImage
+        gtiff_3857 = self.gdalwarp_geotiff_image(self, gdal_warp_options, dst_fname=mem_fname) # type: GeotiffImage
         gdal2tiles.generate_tiles(mem_fname, out_dir)
 
     def close_image(self):  # type: (...) -> None
-- 
2.43.0


From 449998ec077e4f90d8ff8efb3194120a85391dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 28/69] fix: warping an in-memory image failed (virtual raster
 of a released dataset)

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 946722f..845c01b 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -1,5 +1,7 @@
 from __future__ import division
 
+import uuid
+
 import gdal
 import numpy as np
 import osr
@@ -153,7 +155,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
             src_dataset = image.get_gdal_mem_datset()
 
         if dst_fname is None:
-            dst_fname="/vsimem/tmp_gdalwarp_geotiff.vrt"
+            dst_fname = "/vsimem/" + uuid.uuid4().hex + ".tif"
 
         dst_dataset = gdal.Warp(dst_fname, src_dataset, options=warp_ops)
         src_dataset = None
-- 
2.43.0


From d8ebe990ddeabcb807f93f9642c2f944ba76b969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 29/69] fix: map tiles of an in-memory image failed (virtual
 raster of a released dataset)

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 845c01b..eb22d2a 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -183,7 +183,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         import gdal2tiles
         tmp_filename = "/tmp/tmp_gdalwarp.tif"
         gdal_warp_options = gdal.WarpOptions(dstSRS="EPSG:3857")
-        mem_fname = "/vsimem/tmp_gdalwarp_geotiff.vrt"
+        mem_fname = "/vsimem/tmp_gdalwarp_geotiff.tif"
         gtiff_3857 = self.gdalwarp_geotiff_image(self, gdal_warp_options, dst_fname=mem_fname) # type: GeotiffImage
         gdal2tiles.generate_tiles(mem_fname, out_dir)
 
-- 
2.43.0


From edae777857c4075514582891d11c64bcfb02d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 30/69] fix: ENVI complex data types were mixed up (6 is
 single, 9 is double precision)

---
 resippy/utils/envi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index a6260d9..3fa4e9d 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -8,10 +8,10 @@ ENVI_DTYPES_TO_NUMPY = {"1": np.uint8,
                         "3": np.int32,
                         "4": np.float32,
                         "5": np.float64,
-                        "6": None,
+                        "6": np.complex64,
                         "7": None,
                         "8": None,
-                        "9": np.complex64,
+                        "9": np.complex128,
                         "10": None,
                         "11": None,
                         "12": np.uint16,
-- 
2.43.0


From 7629e07d8fb1b4cd43aadf44c3aa812a6f204718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 31/69] fix: unsupported ENVI data types were read as float64

---
 resippy/utils/envi_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 3fa4e9d..b61ca9b 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -23,7 +23,10 @@ ENVI_DTYPES_TO_NUMPY = {"1": np.uint8,
 
 def envi_dtype_to_numpy_dtype(envi_dtype,       # type: int
                               ):
-    return ENVI_DTYPES_TO_NUMPY[str(int(envi_dtype))]
+    numpy_dtype = ENVI_DTYPES_TO_NUMPY.get(str(int(envi_dtype)))
+    if numpy_dtype is None:
+        raise ValueError("ENVI data type not supported: " + str(envi_dtype))
+    return numpy_dtype
 
 
 def numpy_dtype_to_envi_dtype(envi_dtype,       # type: int
-- 
2.43.0


From 85fc9edbb29451931d520de16b94f2371ab4daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 32/69] fix: last ENVI header entry was lost when the file does
 not end in a newline

---
 resippy/utils/envi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index b61ca9b..04a157e 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -90,7 +90,7 @@ def read_envi_header(header_fname,      # type: str
     with open(header_fname, 'r') as content_file:
         header_text = content_file.read()
 
-    header_text = string_utils.cleanup_newlines(header_text)
+    header_text = string_utils.cleanup_newlines(header_text) + os.linesep
 
     envi_header_dict = {}
 
-- 
2.43.0


From 73efe1adead6badaed01e5cadae5e3fd6a045123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 33/69] fix: reading an ENVI header with an unclosed brace
 never ended

---
 resippy/utils/envi_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 04a157e..1038119 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -127,6 +127,8 @@ def read_envi_header(header_fname,      # type: str
 
         if is_bracket_entry(header_text):
             right_brace_index = header_text.find('}')
+            if right_brace_index == -1:
+                raise ValueError("ENVI header entry has no closing brace: " + header_text)
             entry_text = header_text[0:right_brace_index]
             key, val = str.split(entry_text, '=', 1)
             header_text = header_text[right_brace_index + 1:]
-- 
2.43.0


From 34df9996cd039fea66e6d835245b1d667629c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 34/69] fix: ENVI header values containing an equals sign could
 not be read

---
 resippy/utils/envi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 1038119..d0c75a9 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -136,7 +136,7 @@ def read_envi_header(header_fname,      # type: str
         elif is_equals_entry(header_text):
             linesep_index = header_text.find(os.linesep)
             entry_text = header_text[0:linesep_index]
-            key, val = entry_text.split('=')
+            key, val = entry_text.split('=', 1)
             header_text = header_text[linesep_index + 1:]
 
         elif entry_has_newline(header_text):
-- 
2.43.0


From 9dafff233320354a5958392dde767a1f5bdc79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 35/69] fix: ENVI images interleaved other than bil were
 written and read as zeros

---
 resippy/utils/envi_utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index d0c75a9..64c3b64 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -187,7 +187,6 @@ def write_envi_header(header_dict,      # type: dict
             f.write("\n")
 
 
-# TODO: add more interleave formats, only BIP is currently supported
 def write_envi_image(image_cube,                    # type: np.ndarray
                      output_fname,                  # type: str
                      output_header_fname=None,      # type: str
@@ -204,6 +203,12 @@ def write_envi_image(image_cube,                    # type: np.ndarray
                 data_chunk = image_cube[l, :, b]
                 raw_data[raw_data_counter:raw_data_counter+nx] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        raw_data[:] = image_cube.ravel()
+    elif interleave == 'bsq':
+        raw_data[:] = np.transpose(image_cube, (2, 0, 1)).ravel()
+    else:
+        raise ValueError("ENVI interleave not supported: " + interleave)
     raw_data.tofile(output_fname)
 
     envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
@@ -261,4 +266,10 @@ def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
                 data_chunk = raw_envi_data[raw_data_counter:raw_data_counter+nx]
                 image_cube[l, :, b] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        image_cube[:] = np.reshape(raw_envi_data, (ny, nx, nbands))
+    elif interleave == 'bsq':
+        image_cube[:] = np.transpose(np.reshape(raw_envi_data, (nbands, ny, nx)), (1, 2, 0))
+    else:
+        raise ValueError("ENVI interleave not supported: " + interleave)
     return image_cube
-- 
2.43.0


From 6bcbaf00dc2cfe6ef3e29beb41fd47bcce6b9107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 36/69] fix: ENVI header offset and byte order were ignored

---
 resippy/utils/envi_utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 64c3b64..6583732 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -239,16 +239,23 @@ def read_envi_image(image_file,             # type: str
     nbands = int(envi_header['bands'])
     envi_dtype = envi_header['data type']
     interleave = envi_header['interleave']
-    envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype)
+    envi_image_data = read_all_image_data_to_numpy_array(image_file,
+                                                         envi_dtype,
+                                                         envi_header.get('header offset', 0),
+                                                         envi_header.get('byte order', 0))
     image_cube = construct_image_cube_from_raw_data(envi_image_data, nx, ny, nbands, interleave)
     return image_cube
 
 
 def read_all_image_data_to_numpy_array(envi_image_path,     # type: str
                                        envi_dtype,          # type: int
+                                       header_offset=0,     # type: int
+                                       byte_order=0,        # type: int
                                        ):                   # type: (...) -> np.ndarray
-    numpy_dtype = envi_dtype_to_numpy_dtype(envi_dtype)
-    numpy_data = np.fromfile(envi_image_path, numpy_dtype)
+    numpy_dtype = np.dtype(envi_dtype_to_numpy_dtype(envi_dtype))
+    if byte_order == 1:
+        numpy_dtype = numpy_dtype.newbyteorder('>')
+    numpy_data = np.fromfile(envi_image_path, numpy_dtype, offset=header_offset)
     return numpy_data
 
 
-- 
2.43.0


From e55f4c63aae08b36741bd0c163dc012640974730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 37/69] fix: ENVI metadata header field was not initialised

---
 resippy/image_objects/envi/envi_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/envi/envi_metadata.py b/resippy/image_objects/envi/envi_metadata.py
index ce85688..292cad5 100644
--- a/resippy/image_objects/envi/envi_metadata.py
+++ b/resippy/image_objects/envi/envi_metadata.py
@@ -6,7 +6,7 @@ import resippy.utils.envi_utils as envi_utils
 class EnviMetadata(AbstractImageMetadata):
     def __init__(self):
         super(EnviMetadata, self).__init__()
-        envi_header = {}
+        self.envi_header = {}
 
     @classmethod
     def init_from_header(cls, header_fname):
-- 
2.43.0


From 4c8eb38429712f81abac6dab0a55506c14f70a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 38/69] fix: colour maps with more than 128 entries overflowed
 the 8-bit index

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 6accb45..09eef01 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -205,8 +205,8 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         max_clip = min_clip + (max_clip - min_clip) * (n_bins - 1) / n_bins
 
     palette_indices = np.linspace(min_clip, max_clip, n_bins)
-    image_low_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
-    image_high_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
+    image_low_index_map = np.zeros(grayscale_image.shape, dtype=int)
+    image_high_index_map = np.zeros(grayscale_image.shape, dtype=int)
     image_low_palette_index = np.zeros(grayscale_image.shape)
     image_high_palette_index = np.zeros(grayscale_image.shape)
 
-- 
2.43.0


From 0840a9ba5bcc176870c650e599a70a7ef208dcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 39/69] fix: gdal_grid_image_band unpacked the pixel count
 instead of the shape

---
 resippy/utils/image_utils/image_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 09eef01..30ccf2b 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -91,7 +91,7 @@ def gdal_grid_image_band(image_to_warp,  # type: ndarray
 
     fileformat = "MEMORY"
     driver = ogr.GetDriverByName(fileformat)
-    ys, xs = image_to_warp.size
+    ys, xs = image_to_warp.shape
 
     datasource = driver.CreateDataSource('memData')
     datasource.SetProjection(projection_wkt)
-- 
2.43.0


From c8e1a0e17690665b19cec97cede064b19eed90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 40/69] fix: grayscale chips could not be written to disk

---
 resippy/utils/image_utils/image_chipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index 90e6407..362e0f4 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -146,10 +146,10 @@ def write_chips_to_disk(image_chips,            # type: ndarray
         base_chip_fname = os.path.basename(output_dir)
     n_chips = get_nchips(image_chips)
     for i in range(n_chips):
-        chip = image_chips[i, :, :, :]
+        chip = image_chips[i]
         if output_chip_ny is not None:
             chip = image_utils.resize_image(chip, output_chip_ny, output_chip_nx)
-        if remove_alpha is True and chip.shape[-1] == 4:
+        if remove_alpha is True and chip.ndim == 3 and chip.shape[-1] == 4:
             chip = chip[:, :, 0:3]
         chip_fname = base_chip_fname + "_" + str(i).zfill(8)
         if fnames_list is not None:
-- 
2.43.0


From ded78bc727036fec8e4c6d57aa1c8c1606272bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 41/69] fix: gdal_grid_image_band called methods the vector
 dataset does not have and gridded heights of zero

---
 resippy/utils/image_utils/image_utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 30ccf2b..6fbde60 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -6,6 +6,7 @@ from typing import Union
 from skimage import transform as sktransform
 import gdal
 import ogr
+import osr
 import seaborn
 from seaborn.palettes import _ColorPalette
 from PIL import Image
@@ -90,30 +91,30 @@ def gdal_grid_image_band(image_to_warp,  # type: ndarray
                          ):  # type:
 
     fileformat = "MEMORY"
-    driver = ogr.GetDriverByName(fileformat)
+    driver = gdal.GetDriverByName(fileformat)
     ys, xs = image_to_warp.shape
 
-    datasource = driver.CreateDataSource('memData')
-    datasource.SetProjection(projection_wkt)
+    datasource = driver.Create('memData', 0, 0, 0, gdal.GDT_Unknown)
+    spatial_reference = osr.SpatialReference(projection_wkt) if projection_wkt else None
 
-    layer = datasource.CreateLayer('image', geom_type=ogr.wkbPoint)
+    layer = datasource.CreateLayer('image', srs=spatial_reference, geom_type=ogr.wkbPoint)
     layer.CreateField(ogr.FieldDefn("Z", ogr.OFTReal))
 
     for i in range(xs):
         for j in range(ys):
             feature = ogr.Feature(layer.GetLayerDefn())
             point = ogr.Geometry(ogr.wkbPoint)
-            point.AddPoint(image_x_coords[j, i], image_y_coords[j, i])
+            point.AddPoint(float(image_x_coords[j, i]), float(image_y_coords[j, i]))
             feature.SetGeometry(point)
 
-            feature.SetField("Z", image_to_warp[j, i])
+            feature.SetField("Z", float(image_to_warp[j, i]))
 
             layer.CreateFeature(feature)
             feature = None
 
     dst_fname = output_fname
 
-    ops = gdal.GridOptions(width=npix_x, height=npix_y, noData=nodata_val)
+    ops = gdal.GridOptions(width=npix_x, height=npix_y, noData=nodata_val, zfield="Z")
 
     dst_dataset = gdal.Grid(dst_fname, datasource, options=ops)
     src_dataset = None
-- 
2.43.0


From 6b62cb0f84065171332778e93c8d873a3e3891b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 42/69] fix: covariance equalization matrix of image cubes
 failed without masks

---
 resippy/spectral/spectral_image_processing_2d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index ef5c91d..71fa7b9 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -146,8 +146,12 @@ def compute_cov_eq_linear_transform_matrix(input_scene,                 # type:
                                            ):                           # type: (...) -> ndarray
     flattened_1 = spectral_tools.flatten_image_cube(input_scene)
     flattened_2 = spectral_tools.flatten_image_cube(scene_to_match)
-    flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
-    flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
+    flattened_mask_1 = None
+    flattened_mask_2 = None
+    if input_scene_mask is not None:
+        flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
+    if scene_to_match_mask is not None:
+        flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
     big_l = spectral_image_processing_1d.compute_cov_eq_linear_transform_matrix(flattened_1,
                                                                                 flattened_2,
                                                                                 flattened_mask_1,
-- 
2.43.0


From e78b40e6cf93f57c6f06f18658fd4a9458cdda44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 43/69] fix: principal components overwrote the caller's image
 cube

---
 resippy/spectral/spectral_image_processing_2d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index 71fa7b9..e4223e3 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -21,8 +21,7 @@ def compute_image_cube_pca(spectral_image,      # type: ndarray
     #                      whiten=whiten,
     #                      copy=False)
     pca = PCA(n_components=n_components,
-                         whiten=whiten,
-                         copy=False)
+                         whiten=whiten)
 
     xformed = pca.fit_transform(prepped_cube)
     nsamp, ncomp = xformed.shape
-- 
2.43.0


From fea4c933fbad97e4015f16acc26934115f3d59ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 44/69] fix: resampled spectrum lost its wavelength units

---
 resippy/spectral/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 493a2a4..550f11b 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -121,5 +121,6 @@ class Spectrum:
         new_spec.set_wavelengths(rsr_band_centers)
         new_spec.set_spectral_data(np.array(spectra))
         new_spec.set_spectrum_units(self.get_spectrum_units())
+        new_spec.set_wavelength_units(self.get_wavelength_units())
 
         return new_spec
-- 
2.43.0


From fe8f5b4d3e7ea4e9928c7fbb286bee1ec2dc518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 45/69] fix: GPS time conversion depended on the local time
 zone

---
 resippy/utils/time_utils.py | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index 167a7cc..f8786e4 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -1,33 +1,33 @@
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 from bisect import bisect_right
 import math
 
 # table of UTC leap second insertions since 1980 (http://hpiers.obspm.fr/eop-pc/index.php?index=TAI-UTC_tab&lang=en)
 _LEAPSECONDS = [
-    (datetime(1980, 1, 1).timestamp(), timedelta(seconds=19)),
-    (datetime(1981, 7, 1).timestamp(), timedelta(seconds=20)),
-    (datetime(1982, 7, 1).timestamp(), timedelta(seconds=21)),
-    (datetime(1983, 7, 1).timestamp(), timedelta(seconds=22)),
-    (datetime(1985, 7, 1).timestamp(), timedelta(seconds=23)),
-    (datetime(1988, 1, 1).timestamp(), timedelta(seconds=24)),
-    (datetime(1990, 1, 1).timestamp(), timedelta(seconds=25)),
-    (datetime(1991, 1, 1).timestamp(), timedelta(seconds=26)),
-    (datetime(1992, 7, 1).timestamp(), timedelta(seconds=27)),
-    (datetime(1993, 7, 1).timestamp(), timedelta(seconds=28)),
-    (datetime(1994, 7, 1).timestamp(), timedelta(seconds=29)),
-    (datetime(1996, 1, 1).timestamp(), timedelta(seconds=30)),
-    (datetime(1997, 7, 1).timestamp(), timedelta(seconds=31)),
-    (datetime(1999, 1, 1).timestamp(), timedelta(seconds=32)),
-    (datetime(2006, 1, 1).timestamp(), timedelta(seconds=33)),
-    (datetime(2009, 1, 1).timestamp(), timedelta(seconds=34)),
-    (datetime(2012, 7, 1).timestamp(), timedelta(seconds=35)),
-    (datetime(2015, 7, 1).timestamp(), timedelta(seconds=36)),
-    (datetime(2017, 1, 1).timestamp(), timedelta(seconds=37))
+    (datetime(1980, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=19)),
+    (datetime(1981, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=20)),
+    (datetime(1982, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=21)),
+    (datetime(1983, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=22)),
+    (datetime(1985, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=23)),
+    (datetime(1988, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=24)),
+    (datetime(1990, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=25)),
+    (datetime(1991, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=26)),
+    (datetime(1992, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=27)),
+    (datetime(1993, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=28)),
+    (datetime(1994, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=29)),
+    (datetime(1996, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=30)),
+    (datetime(1997, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=31)),
+    (datetime(1999, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=32)),
+    (datetime(2006, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=33)),
+    (datetime(2009, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=34)),
+    (datetime(2012, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=35)),
+    (datetime(2015, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=36)),
+    (datetime(2017, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=37))
 ]
 
 # reference epoch for GPS and UTC time
-_GPS_EPOCH = datetime(1980, 1, 6)
-_UNIX_EPOCH = datetime(1970, 1, 1)
+_GPS_EPOCH = datetime(1980, 1, 6, tzinfo=timezone.utc)
+_UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 
 # other constants
 _SECONDS_IN_MINUTE = 60
-- 
2.43.0


From b8886fc453c32361f6392ea97177200fa787e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 46/69] fix: GPS to UTC was a second off just before a leap
 second

---
 resippy/utils/time_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index f8786e4..c4f5ebf 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -60,7 +60,9 @@ def utc_timestamp_to_gps_timestamp(utc_timestamp    # type: float
 def gps_timestamp_to_utc_timestamp(gps_timestamp    # type: float
                                    ):               # type: (...) -> float
     utc_timestamp_with_leap = gps_timestamp + (_GPS_EPOCH.timestamp() - _UNIX_EPOCH.timestamp())
-    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    # the leap second table is in UTC, look it up again with the corrected time
+    utc_timestamp = utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp).total_seconds()
 
 
 def utc_timestamp_to_gps_week_and_seconds(utc_timestamp     # type: float
-- 
2.43.0


From 8463a2fd81982b3943aab14908f8713af2e5d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 47/69] fix: reflectance unit was defined by an undefined unit

---
 resippy/utils/units/unit_defs.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/units/unit_defs.txt b/resippy/utils/units/unit_defs.txt
index cda7ed1..53c8d36 100644
--- a/resippy/utils/units/unit_defs.txt
+++ b/resippy/utils/units/unit_defs.txt
@@ -1,3 +1,3 @@
 micron = micrometer
 flick = watt/cm**2/steradian/micrometer
-reflectance_zero_to_one = zero_to_one
\ No newline at end of file
+reflectance_zero_to_one = []
\ No newline at end of file
-- 
2.43.0


From e1ee8d3deb00c7120d08b52ea05dd653460e425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 48/69] fix: leading zeros of the Micasense sub-second time
 were dropped

---
 .../image_objects/earth_overhead/micasense/micasense_image.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index b3ae344..6299f36 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -44,7 +44,7 @@ class MicasenseImage(AbstractEarthOverheadImage):
         __, seconds_in_week = time_utils.utc_timestamp_to_gps_week_and_seconds(utc_timestamp)
 
         timestamp_decimal_str = str(exif_data['EXIF SubSecTime'])
-        timestamp_decimal = float('0.{}'.format(int(timestamp_decimal_str)))
+        timestamp_decimal = float('0.{}'.format(timestamp_decimal_str.strip()))
 
         output_dict = {'gps_timestamp': seconds_in_week + timestamp_decimal}
 
-- 
2.43.0


From d9f7d127ae8e308eb151102b15b4eb67000ab788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 49/69] fix: denominators of the GPS degrees and minutes were
 ignored

---
 .../earth_overhead/micasense/micasense_image.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index 6299f36..60261fa 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -67,10 +67,10 @@ class MicasenseImage(AbstractEarthOverheadImage):
         dms = dms_tag.values
         ref = ref_tag.values
 
-        d = dms[0].num
-        m = dms[1].num
+        d = dms[0].num / dms[0].den
+        m = dms[1].num / dms[1].den
         s = dms[2].num / dms[2].den
 
         sign = -1 if ref == 'S' or ref == 'W' else 1
 
-        return sign * (int(d) + float(m) / 60 + float(s) / 3600)
+        return sign * (float(d) + float(m) / 60 + float(s) / 3600)
-- 
2.43.0


From ea016896c2043347ba34a3483ce7930068ac5807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 50/69] fix: last line of the Pix4D internal parameter file was
 dropped

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 resippy/utils/pix4d_utils.py                                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index 6931343..75bec1c 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -201,7 +201,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
                 new_camera_param_start_locations.append(i)
 
         new_camera_param_end_locations = new_camera_param_start_locations[1:]
-        new_camera_param_end_locations.append(i)
+        new_camera_param_end_locations.append(len(lines))
 
         camera_params_list = []
 
diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index 90acab2..ea57875 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -235,7 +235,7 @@ def read_pix4d_calibrated_internal_camera_parameters(internal_params_cam_file,
             new_camera_param_start_locations.append(i)
 
     new_camera_param_end_locations = new_camera_param_start_locations[1:]
-    new_camera_param_end_locations.append(i)
+    new_camera_param_end_locations.append(len(lines))
 
     camera_params_list = []
 
-- 
2.43.0


From 6f21e4911bbc32187fc5427382c6fff026119673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 51/69] fix: computed rotation matrix of each Pix4D image
 overwrote the previous one

---
 resippy/utils/pix4d_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index ea57875..3be09d7 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -199,8 +199,8 @@ def make_master_dict(base_path,                     # type: str
             raise ValueError("camera index string has more than one character!")
         cam_index = int(cam_index_str) - 1
         entry_dict["internal_params"] = internal_list[cam_index]
+        entry_dict["r_matrix_computed"] = create_r_matrix(external_dict[key])
         master_dict[key] = entry_dict
-        master_dict["r_matrix_computed"] = create_r_matrix(external_dict[key])
     return master_dict
 
 
-- 
2.43.0


From fce8e0412cf5d2bfc035c6c204b5565d1a60e615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 52/69] fix: camera simulator read the exterior orientation in
 the boresight units

---
 resippy/utils/physical_camera_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 4d2cc6d..127dd37 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -90,9 +90,9 @@ class PhysicalCameraSimulator:
                                                                              order=self._boresight_rpy_order)
 
         fixtured_camera.set_fixture_orientation_by_roll_pitch_yaw(roll, pitch, yaw,
-                                                                  roll_units=self._boresight_units,
-                                                                  pitch_units=self._boresight_units,
-                                                                  yaw_units=self._boresight_units)
+                                                                  roll_units=self._external_orientation_rpy_units,
+                                                                  pitch_units=self._external_orientation_rpy_units,
+                                                                  yaw_units=self._external_orientation_rpy_units)
 
         camera_1_m_matrix = fixtured_camera.get_camera_absolute_M_matrix()
         omega, phi, kappa = photogrammetry_utils.solve_for_omega_phi_kappa(camera_1_m_matrix)
-- 
2.43.0


From b015a183f955ebf02b57b785c20afb2959b1b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 53/69] fix: camera simulator looked up the GeoTIFF without the
 projection of its coordinates

---
 resippy/utils/physical_camera_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 127dd37..62799e7 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -131,7 +131,8 @@ class PhysicalCameraSimulator:
         gtiff_x_vals, gtiff_y_vals = self._gtiff_image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(
             pass1_lons,
             pass1_lats,
-            numpy.zeros_like(pass1_lons))
+            numpy.zeros_like(pass1_lons),
+            world_proj=point_calc.get_projection())
 
         if self._gtiff_image_data is None:
             self._gtiff_image_data = self._gtiff_image_object.read_band_from_disk(0)
-- 
2.43.0


From aaaf62f32350c0a2d1a0d0886bd6b92f7a831222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 54/69] fix: a malformed line shifted the columns of an
 Applanix EO file against each other

---
 resippy/photogrammetry/nav/applanix_eo_nav.py | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index 0d0c715..b386df4 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -27,17 +27,19 @@ class ApplanixEONav(AbstractNav):
                 line_parts = line.split()
 
                 try:
-                    gps_time.append(float(line_parts[1]))
-                    easting.append(float(line_parts[2]))
-                    northing.append(float(line_parts[3]))
-                    height.append(float(line_parts[4]))
-                    omega.append(float(line_parts[5]))
-                    phi.append(float(line_parts[6]))
-                    kappa.append(float(line_parts[7]))
-                    lat.append(float(line_parts[8]))
-                    lon.append(float(line_parts[9]))
+                    values = [float(line_parts[i]) for i in range(1, 10)]
                 except (IndexError, ValueError):
-                    pass
+                    continue
+
+                gps_time.append(values[0])
+                easting.append(values[1])
+                northing.append(values[2])
+                height.append(values[3])
+                omega.append(values[4])
+                phi.append(values[5])
+                kappa.append(values[6])
+                lat.append(values[7])
+                lon.append(values[8])
 
         self._nav_data = {
             'gps_time': np.array(gps_time),
-- 
2.43.0


From 820d78a773a99d2d501d5adb045df66a5edf43e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 55/69] fix: record length of Applanix EO files did not count
 all columns

---
 resippy/photogrammetry/nav/applanix_eo_nav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index b386df4..27396da 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -54,7 +54,7 @@ class ApplanixEONav(AbstractNav):
         }
 
         self._num_records = len(gps_time)
-        self._record_length = 7
+        self._record_length = len(self._nav_data)
 
         if not zone:
             self._projection = pyproj.Proj(proj=proj, ellps=ellps, datum=datum, preserve_units=True)
-- 
2.43.0


From 7c284f974b8cb43a0132fad3be1162d688e22d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 56/69] fix: sensor model returned None for a band it does not
 have

---
 .../earth_overhead_sensor_model.py                            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/earth_overhead_sensor_model.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/earth_overhead_sensor_model.py
index 2bfced0..b4408ec 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/earth_overhead_sensor_model.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/earth_overhead_sensor_model.py
@@ -20,7 +20,7 @@ class EarthOverheadSensorModel(AbstractEarthOverheadPointCalc):
         if band < len(self._point_calcs):
             return self._point_calcs[band]._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts, band)
 
-        # TODO: error for band out of range
+        raise ValueError("band out of range: " + str(band))
 
     def _pixel_x_y_alt_to_lon_lat_native(self,
                                          pixel_xs,      # type: np.ndarray
@@ -31,7 +31,7 @@ class EarthOverheadSensorModel(AbstractEarthOverheadPointCalc):
         if band < len(self._point_calcs):
             return self._point_calcs[band]._pixel_x_y_alt_to_lon_lat_native(pixel_xs, pixel_ys, alts, band)
 
-        # TODO: error for band out of range
+        raise ValueError("band out of range: " + str(band))
 
     def set_projection(self,
                        projection   # type: Proj
-- 
2.43.0


From 1c00c26cbca5f8ed3e96369be5fb4e9c7c6f6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 57/69] fix: sensor model set the distortion model through a
 method no point calculator has

---
 .../earth_overhead_sensor_model.py                             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/earth_overhead_sensor_model.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/earth_overhead_sensor_model.py
index b4408ec..c01e160 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/earth_overhead_sensor_model.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/earth_overhead_sensor_model.py
@@ -42,7 +42,8 @@ class EarthOverheadSensorModel(AbstractEarthOverheadPointCalc):
     def set_distortion_model(self,
                              distortion_model   # type: str
                              ):                 # type: (...) -> None
-        [point_calc.set_distortion_model(distortion_model) for point_calc in self._point_calcs]
+        for point_calc in self._point_calcs:
+            point_calc.distortion_model = distortion_model
 
     def set_point_calcs(self,
                         point_calcs     # type: [AbstractEarthOverheadPointCalc]
-- 
2.43.0


From 0387985470efb61a6142e3157d9acb98221f372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 58/69] fix: unknown Pix4D distortion models were not rejected

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index 75bec1c..a0062ae 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -163,8 +163,10 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         if distortion_model is None:
             pixel_coords = np.array(
                 self.camera_coords_to_pixel_coords_no_distortion(camera_coords))
-        if distortion_model == "regular":
+        elif distortion_model == "regular":
             pixel_coords = np.array(self.camera_coords_to_pixel_coords_with_distortion(camera_coords))
+        else:
+            raise ValueError("distortion model not supported: " + str(distortion_model))
 
         if reverse_y_pixels:
             pixel_coords[1] = self.npix_y - pixel_coords[1]
-- 
2.43.0


From a9fe0dd6bd1bd6161850a60f2d94c887084e75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 59/69] fix: image scoring without a ledger failed

---
 .../neural_net_model_scoring/keras_image_scoring.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index 5e04b8e..a211544 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -43,7 +43,8 @@ def chip_and_score_image(input_image,               # type: np.ndarray
 
         preds = trained_keras_model.predict(chip)
         scores.append(preds)
-        atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
+        if atk_chain_ledger is not None:
+            atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
     scores = np.squeeze(np.array(scores))
     if labels is not None and thing_to_find is not None:
-- 
2.43.0


From 80651b76cefdf03a40a787f64e06b425e2577ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 60/69] fix: image scoring used scipy.misc.imresize, which no
 longer exists

---
 .../neural_net_model_scoring/keras_image_scoring.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index a211544..983827e 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -1,7 +1,7 @@
 import numpy as np
 import resippy.utils.image_utils.image_chipper as image_chipper
 from keras.preprocessing.image import img_to_array
-import scipy.misc as scipy_misc
+import resippy.utils.image_utils.image_utils as image_utils
 from keras.models import Model
 
 
@@ -33,7 +33,7 @@ def chip_and_score_image(input_image,               # type: np.ndarray
 
     n_chips = len(image_chips)
     for i, chip in enumerate(image_chips):
-        chip = scipy_misc.imresize(chip, (target_chip_size_y, target_chip_size_x))
+        chip = image_utils.resize_image(chip, target_chip_size_y, target_chip_size_x)
         chip = img_to_array(chip)  # shape is (ny, nx, 3)
         chip = np.expand_dims(chip, axis=0)  # Now shape is (1 ,ny, nx, 3)
         if normalize_method == "divide_by_255":
-- 
2.43.0


From 95cbea431a75dc981c90b4dc7efe59987ab71f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 61/69] fix: unknown rotation order gave a matrix of zeros

---
 resippy/utils/photogrammetry_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index a85ad87..f6f4ee2 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -160,6 +160,8 @@ def create_M_matrix(omega_radians,      # type: float
             m_matrix = m_phi @ m_omega @ m_kappa
         elif order == 'ypr':
             m_matrix = m_omega @ m_phi @ m_kappa
+        else:
+            raise ValueError("rotation order not supported: " + str(order))
 
         return m_matrix
 
-- 
2.43.0


From 5dca3bbf3966108948932e3a924cf8d12456446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 62/69] fix: scores of an image that gives a single chip can be
 looked up by label

---
 .../neural_net_model_scoring/keras_image_scoring.py          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index 983827e..4bcd297 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -46,8 +46,9 @@ def chip_and_score_image(input_image,               # type: np.ndarray
         if atk_chain_ledger is not None:
             atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
-    scores = np.squeeze(np.array(scores))
     if labels is not None and thing_to_find is not None:
         thing_to_find_index = labels.index(thing_to_find)
-        scores = scores[:, thing_to_find_index]
+        scores = np.reshape(np.array(scores), (n_chips, -1))[:, thing_to_find_index]
+    else:
+        scores = np.squeeze(np.array(scores))
     return scores, upper_left_yx_locs
-- 
2.43.0


From 5b53ec37dbd290f3a16dedf2a37770ca943194aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 63/69] fix: an empty text list can be written to a file

---
 resippy/utils/file_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 591d780..33e3ba6 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -77,10 +77,8 @@ def get_path_from_subdirs(base_dir,     # type: str
 def write_text_list_to_file(text_list,  # type: list
                             output_fname,  # type: str
                             ):              # type: (...) -> None
-    text_list_with_newlines = [entry + '\n' for entry in text_list]
-    text_list_with_newlines[-1] = text_list[-1]
     with open(output_fname, 'w') as f:
-        f.writelines(text_list_with_newlines)
+        f.write('\n'.join(text_list))
 
 
 def read_text_list_from_file(text_file_fname,   # type: str
-- 
2.43.0


From e612d139f3a41c2b777e37ff1951378a905f8344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 64/69] fix: the pix4d projection file is closed after reading

---
 resippy/utils/pix4d_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index 3be09d7..0f2c316 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -180,7 +180,8 @@ def make_master_dict(base_path,                     # type: str
     master_dict = {}
 
     # set master dict projection
-    proj_wkt = open(wkt_path, "r").read()
+    with open(wkt_path, "r") as f:
+        proj_wkt = f.read()
     spatial_ref = osr.SpatialReference()
     spatial_ref.ImportFromWkt(proj_wkt)
     proj4_string = spatial_ref.ExportToProj4()
-- 
2.43.0


From c2f820c2b9dab6d1b0a579882ef6db9f7109c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 65/69] fix: spectral angle of integer pixels no longer wraps
 around in their own type

---
 resippy/spectral/spectral_image_processing_1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 6569ec7..7a51ecf 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -165,6 +165,10 @@ def ace_demeaned(demeaned_image,            # type: ndarray
 def sam(spectral_image,     # type: ndarray
         target_spectra      # type: ndarray
         ):                  # type: (...) -> ndarray
+    # products of integer pixels would wrap around in their own type
+    spectral_image = np.asanyarray(spectral_image, dtype=float)
+    target_spectra = np.asanyarray(target_spectra, dtype=float)
+
     # Python 3.5+
     # numerator = target_spectra @ spectral_image.transpose()
     # Python 2.7 - 3.4
-- 
2.43.0


From 623aad5f27d0137ec92eed82d88358c2b46b9db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 66/69] fix: normalising a signed integer image no longer wraps
 around in its own type

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 6fbde60..cc2fbc8 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -124,8 +124,8 @@ def gdal_grid_image_band(image_to_warp,  # type: ndarray
 
 
 def normalize_grayscale_image(input_image, new_min, new_max, output_dtype=None):
-    image_min = np.min(input_image)
-    image_max = np.max(input_image)
+    image_min = float(np.min(input_image))
+    image_max = float(np.max(input_image))
     image_zero_to_one = (input_image - image_min)/(image_max-image_min)
     normalized_image = image_zero_to_one * (new_max - new_min) + new_min
     if output_dtype is None:
-- 
2.43.0


From f8564f469c930b28fd172ad0d4bc16493fe67340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 67/69] fix: spectra of integer data can be read with nodata as
 NaN

---
 resippy/spectral/spectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 550f11b..61ae545 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -39,6 +39,8 @@ class Spectrum:
         spectral_data = copy.deepcopy(self._spectral_data)
         if nodata_to_nan:
             # spectral_data_nodata_replaced = copy.deepcopy(self._spectral_data)
+            if not np.issubdtype(spectral_data.dtype, np.inexact):
+                spectral_data = spectral_data.astype(float)     # integers can not hold NaN
             spectral_data[np.where(spectral_data == self.get_nodata_val())] = np.nan
         if with_units:
             spectral_data = spectral_data * self.get_spectrum_units()
-- 
2.43.0


From 9002ad87e86f83e905005a01ffd95842fa3f9854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:45 +0000
Subject: [PATCH 68/69] fix: colour bins of a signed integer image were
 computed in the pixel type and wrapped around

---
 resippy/utils/image_utils/image_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index cc2fbc8..558371a 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -187,6 +187,7 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
             max_clip = np.nanmax(grayscale_image[good_inds])
         else:
             max_clip = np.nanmax(grayscale_image)
+    min_clip, max_clip = float(min_clip), float(max_clip)
     color_palette = np.asarray(color_palette)
 
     if n_bins is not None:
-- 
2.43.0


From f66bf4db6dc32307d51e045e1f43d8f486356f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:04 +0000
Subject: [PATCH 69/69] fix: full ortho without a gsd passed the list of bands
 as one band, failing for images whose bands are not co-registered

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index c8ffda5..d67d3c8 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -127,7 +127,7 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         ny = overhead_image.metadata.get_npix_y()
         native_lons, native_lats = get_pixel_lon_lats(overhead_image,
                                                       dem,
-                                                      bands,
+                                                      0 if bands is None else bands[0],
                                                       pixels_x=np.array([0, nx-1, 0]),
                                                       pixels_y=np.array([0, 0, ny-1]))
         local_lons, local_lats = transform(overhead_image.pointcalc.get_projection(), local_proj, native_lons, native_lats)
-- 
2.43.0

