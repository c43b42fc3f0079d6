From 88c660e36367ed6a4ca20c85dddc0820b64255e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 01/19] fix: Coefficients must not share the caller's default
 array

---
 starwinds_magnetogram/coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index d282542..b19f038 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -13,7 +13,7 @@ class Coefficients(object):
     def __init__(self, default_coefficients=0j):
         """Create an empty set of coefficients"""
         self.coefficients = {}
-        self._default_coefficients = np.atleast_1d(default_coefficients)
+        self._default_coefficients = np.atleast_1d(default_coefficients).copy()  # Not the caller's array.
         self._degree_max = 0
         self._order_min = 0
 
-- 
2.43.0


From 8ff2f4d9e8422512725e09004a16302bfd4efb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 02/19] fix: compare empty coefficient sets without failing

---
 starwinds_magnetogram/coefficients.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index b19f038..b30b4f0 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -220,24 +220,18 @@ def allclose(shc0,
         return False
 
     bool_coeffs = isclose(shc0, shc1, **kwargs)
-    bool_values = np.stack([v for k, v in bool_coeffs.contents()])
 
-    return np.all(bool_values)
+    return all(np.all(v) for k, v in bool_coeffs.contents())
 
 
 def isclose(shc0, shc1, **kwargs):
 
     keys = set.union(*[set(a.coefficients) for a in (shc0, shc1)])
 
-    c0 = np.vstack([shc0.get(degree, order) for degree, order in keys])
-    c1 = np.vstack([shc1.get(degree, order) for degree, order in keys])
-
-    bools = np.isclose(c0, c1, **kwargs)
-
     # Use a boolean array as the default coefficient
     coeffs = Coefficients(default_coefficients=np.empty_like(shc0.default_coefficients, dtype=bool))
-    for (degree, order), bool_ in zip(keys, bools):
-        coeffs.append(degree, order, bool_)
+    for degree, order in keys:
+        coeffs.append(degree, order, np.isclose(shc0.get(degree, order), shc1.get(degree, order), **kwargs))
     return coeffs
 
 
-- 
2.43.0


From e0a0458d27cdc505713299e1598db75b580046e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:07 +0000
Subject: [PATCH 03/19] fix: state the true number of data lines in the SWMF
 header

---
 starwinds_magnetogram/reader_writer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 6a4d09b..2c5edaa 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -103,13 +103,14 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
         # coefficient_data_lines.append(["%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data)) for
         #                       (d, m, data) in zip(*coefficients.as_arrays(degree_l_max=degree_max,
         #                                                                   order_m_min=order_min))])
+        data_lines = []
         for d, m, data in zip(*coefficients.as_arrays(degree_l_max=degree_max,
                                                             order_m_min=order_min)):
             
             assert len(data) == 1, "Expected single complex coefficient"
             data = data[0]
-            coefficient_data_lines.append(["%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data))])        
-
+            data_lines.append("%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data)))
+        coefficient_data_lines.append(data_lines)
 
     if write_swmf_header:
         header_lines = create_swmf_header(file_name, len(coefficient_data_lines[0]), degree_max,
-- 
2.43.0


From adeb350a6c8883c5b717ad8c6973d73372a2a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:49 +0000
Subject: [PATCH 04/19] fix: evaluate negative-order harmonics in
 calculate_lpmn

---
 starwinds_magnetogram/associated_legendre.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index a702eba..8032967 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -9,8 +9,9 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
     :param points_polar: point polar angle values
     :return: tuple of values and derivative values. The last index corresponds to the order and degree.
     """
+    abs_orders_m = np.abs(orders_m)
     max_degree = np.max(degrees_l)
-    max_order = np.max(orders_m)
+    max_order = np.max(abs_orders_m)
     Pmn_cos_theta_result = np.empty(points_polar.shape + (max_order + 1, max_degree + 1))
     Pmn_d_cos_theta_result = np.empty_like(Pmn_cos_theta_result)
 
@@ -24,7 +25,14 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
         with np.errstate(invalid='ignore'):
             Pmn_d_cos_theta_result[ndindex] = b * -np.sin(points_polar[ndindex])
 
-    Pmn_cos_theta_result = Pmn_cos_theta_result[..., orders_m, degrees_l]
-    Pmn_d_cos_theta_result = Pmn_d_cos_theta_result[..., orders_m, degrees_l]
+    # The tables hold non-negative orders only; P_{l,-m} = (-1)^m (l - m)! / (l + m)! P_{l,m}.
+    factor = np.where(np.asarray(orders_m) < 0,
+                      (-1.0) ** abs_orders_m
+                      * scipy.special.factorial(degrees_l - abs_orders_m)
+                      / scipy.special.factorial(degrees_l + abs_orders_m),
+                      1.0)
+
+    Pmn_cos_theta_result = factor * Pmn_cos_theta_result[..., abs_orders_m, degrees_l]
+    Pmn_d_cos_theta_result = factor * Pmn_d_cos_theta_result[..., abs_orders_m, degrees_l]
 
     return Pmn_cos_theta_result, Pmn_d_cos_theta_result
\ No newline at end of file
-- 
2.43.0


From f66d2ba4d01894f6fa8aa7b41d7a072aa0385c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 05/19] fix: Cartesian poloidal and toroidal fields use the
 working derivative methods

---
 starwinds_magnetogram/zdi_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 18b37cd..c4df137 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -560,7 +560,7 @@ class ZdiMagnetogram:
         """
         # Field components in spherical coordinates
         frpa = [self.get_radial_poloidal_field(points_polar, points_azimuth),
-                self.get_polar_poloidal_field(points_polar, points_azimuth),
+                self.get_polar_poloidal_field_new(points_polar, points_azimuth),
                 self.get_azimuthal_poloidal_field(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
@@ -572,7 +572,7 @@ class ZdiMagnetogram:
         # Field components in spherical coordinates
         frpa = [self.get_radial_toroidal_field(points_polar, points_azimuth),
                 self.get_polar_toroidal_field(points_polar, points_azimuth),
-                self.get_azimuthal_toroidal_field(points_polar, points_azimuth)]
+                self.get_azimuthal_toroidal_field_new(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
 
-- 
2.43.0


From 8a9544f8f69298047cca1d3546568503aa38c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 06/19] fix: unrestricted orders and the dipole keep negative
 orders

---
 starwinds_magnetogram/zdi_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index c4df137..e17794b 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -309,7 +309,7 @@ class ZdiMagnetogram:
     def as_dipole(self):
         return self.as_restricted(degree_l_range=1)
 
-    def as_restricted(self, degree_l_range=(0, 1000), order_m_range=(0, 1000)):
+    def as_restricted(self, degree_l_range=(0, 1000), order_m_range=(-1000, 1000)):
 
         degree_l_range = tuple(np.atleast_1d(degree_l_range))
         order_m_range = tuple(np.atleast_1d(order_m_range))
-- 
2.43.0


From b9eae62e67c7c6557661c4f1d91a29fe42f22864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:20 +0000
Subject: [PATCH 07/19] fix: energy accounts for magnetograms without an
 axisymmetric dipole

---
 starwinds_magnetogram/zdi_magnetogram.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index e17794b..a4dd79d 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -451,9 +451,7 @@ class ZdiMagnetogram:
             
             symdipfrac_numerator = (energy_alpha + energy_beta)[np.logical_and(self.degrees_l == 1, self.orders_m == 0)]
             symdipfrac_denominator = np.sum((energy_alpha + energy_beta)[self.degrees_l == 1])
-            assert len(symdipfrac_numerator) == 1
-            symdipfrac_numerator = symdipfrac_numerator[0]
-            symdipfrac = symdipfrac_numerator / symdipfrac_denominator 
+            symdipfrac = np.sum(symdipfrac_numerator) / symdipfrac_denominator
 
             dict_['magnetogram.total.energy.dipole.axisymmetric.fraction'] = symdipfrac
 
-- 
2.43.0


From 0df523cd964c92d3fbfd80144323d058d3caa60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:51 +0000
Subject: [PATCH 08/19] fix: Parker solution must not modify the caller's radii

---
 starwinds_magnetogram/parker_solution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 0051dd6..d99eb6c 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -99,8 +99,8 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        # Radii below the surface are treated as the surface; the caller's array is left alone.
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds_dimensionless = self.find_parker_analytic(radii / self.radius_sonic)
         speeds = speeds_dimensionless * self.speed_sonic
@@ -112,8 +112,8 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        # Radii below the surface are treated as the surface; the caller's array is left alone.
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds = self.speed(radii)
         densities = self.base_density * \
-- 
2.43.0


From e579ee5be95f841c766ffed89bfa4328e6e12c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:51 +0000
Subject: [PATCH 09/19] fix: longitudinal field curve keeps precision for
 integer azimuths

---
 starwinds_magnetogram/longitudinal_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/longitudinal_field.py b/starwinds_magnetogram/longitudinal_field.py
index 569a3e9..0a72668 100644
--- a/starwinds_magnetogram/longitudinal_field.py
+++ b/starwinds_magnetogram/longitudinal_field.py
@@ -21,7 +21,7 @@ def get_longitudinal_field_curve(zdi_geometry, zdi_magnetogram, observer_polar,
     if observer_azimuths is None:
         observer_azimuths = np.deg2rad(np.linspace(0, 360, zdi_geometry.shape[0]))
 
-    longitudinal_fields = np.empty_like(observer_azimuths)
+    longitudinal_fields = np.empty_like(observer_azimuths, dtype=float)
 
     areas = zdi_geometry.areas()
 
-- 
2.43.0


From 01d309617275f73bb8f4e32e9921cb737e6466bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:18 +0000
Subject: [PATCH 10/19] fix: only use the spherical harmonic cache for grids
 its key describes

---
 starwinds_magnetogram/image_converter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/image_converter.py b/starwinds_magnetogram/image_converter.py
index bf39932..21f34e5 100644
--- a/starwinds_magnetogram/image_converter.py
+++ b/starwinds_magnetogram/image_converter.py
@@ -85,10 +85,12 @@ def _cached_spherical_harmonic(ord_m, deg_l, az_tuple, pl_tuple):
 
 def spherical_harmonic(ord_m, deg_l, azimuth, polar, use_cache=True):
 
-    if use_cache:
-        azimuth = np.atleast_2d(azimuth)
-        polar = np.atleast_2d(polar)
+    azimuth = np.asarray(azimuth)
+    polar = np.asarray(polar)
 
+    # The cache key only describes grids with azimuth along the first and polar angle along the second axis.
+    if (use_cache and azimuth.ndim == 2 and polar.ndim == 2
+            and np.all(azimuth == azimuth[:, :1]) and np.all(polar == polar[:1, :])):
         azimuth_tuple = tuple(azimuth[..., 0])
         polar_tuple = tuple(polar[0, ...])
 
-- 
2.43.0


From bcbb3812d1d3e0ace1a71f88c366d77d747609c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:18 +0000
Subject: [PATCH 11/19] fix: numpy integers are corner counts too

---
 starwinds_magnetogram/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/geometry.py b/starwinds_magnetogram/geometry.py
index e51ae57..87d2571 100644
--- a/starwinds_magnetogram/geometry.py
+++ b/starwinds_magnetogram/geometry.py
@@ -11,10 +11,12 @@ class ZdiGeometry:
                  polar_corners=None,
                  azimuthal_corners=None):
 
-        if type(polar_corners) is int and type(azimuthal_corners) is int:
+        integer_types = (int, np.integer)
+
+        if isinstance(polar_corners, integer_types) and isinstance(azimuthal_corners, integer_types):
             polar_corners = np.linspace(0, np.pi, polar_corners)
             azimuthal_corners = np.linspace(0, 2 * np.pi, azimuthal_corners)
-        elif type(polar_corners) is int and azimuthal_corners is None:
+        elif isinstance(polar_corners, integer_types) and azimuthal_corners is None:
             polar_corners = np.linspace(0, np.pi, polar_corners)
             azimuthal_corners = np.linspace(0, 2 * np.pi, 2 * len(polar_corners))
         elif polar_corners is None and azimuthal_corners is None:
-- 
2.43.0


From f667d0d74544e5c4c2e2d20af47b7e43d4c8b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 12/19] fix: conversion never overwrites its input, however the
 paths are spelled

---
 starwinds_magnetogram/bin/convert_magnetogram.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/convert_magnetogram.py b/starwinds_magnetogram/bin/convert_magnetogram.py
index 4b563fd..e885098 100644
--- a/starwinds_magnetogram/bin/convert_magnetogram.py
+++ b/starwinds_magnetogram/bin/convert_magnetogram.py
@@ -104,7 +104,12 @@ def _make_output_filename(input_file, output_name, postfix):
         if os.path.exists(output_name):
             raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
 
-    if input_file == output_name:
+    # The same file can be spelled in several ways, or be reached through a link.
+    same_file = os.path.realpath(input_file) == os.path.realpath(output_name)
+    if os.path.exists(input_file) and os.path.exists(output_name):
+        same_file = os.path.samefile(input_file, output_name)
+
+    if same_file:
         raise ValueError("Input and output file names are the same. Please provide a (different) output file name.")
 
     return output_name
-- 
2.43.0


From 329ac8d53d2e3bc7ca422a6098dfb20e72d5e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 13/19] fix: label polar and azimuthal field plots with their
 own component

---
 starwinds_magnetogram/bin/plot_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/bin/plot_magnetogram.py b/starwinds_magnetogram/bin/plot_magnetogram.py
index 955d3e8..9682ef2 100644
--- a/starwinds_magnetogram/bin/plot_magnetogram.py
+++ b/starwinds_magnetogram/bin/plot_magnetogram.py
@@ -43,8 +43,8 @@ def main():
     _star_name = guess_star_name_from_filename(args.input_file)
 
     _getters = {'radial': (lz.get_radial_field, 'B_r'),
-                'polar': (lz.get_polar_field, r'B_\phi'),
-                'azimuthal': (lz.get_azimuthal_field, r'B_\theta'),
+                'polar': (lz.get_polar_field, r'B_\theta'),
+                'azimuthal': (lz.get_azimuthal_field, r'B_\phi'),
                 'strength': (lz.get_field_strength, '|B|')}
     _getters['azimuth'] = _getters['azimuthal']
 
-- 
2.43.0


From 198651f9fc85985c118e549d257794144cc22fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 14/19] fix: plot a single LSD parameter

---
 starwinds_magnetogram/bin/plot_lsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/plot_lsd.py b/starwinds_magnetogram/bin/plot_lsd.py
index 172e915..d396398 100644
--- a/starwinds_magnetogram/bin/plot_lsd.py
+++ b/starwinds_magnetogram/bin/plot_lsd.py
@@ -29,7 +29,7 @@ def main():
     parameters = args.params
     _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True)
     plot_lsd.plot_lsd_profile(base_data, parameters=parameters)
-    axs[0].set_title('Data in %s' % args.input_file)
+    np.atleast_1d(axs)[0].set_title('Data in %s' % args.input_file)
 
     if args.output_file is None:
         plt.show()
-- 
2.43.0


From d8a8ac711444a497ffcaedd6f633d77bc59c06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 15/19] fix: component plots use the requested colour map and
 symmetry

---
 starwinds_magnetogram/plot_zdi.py | 3 ++-
 starwinds_magnetogram/plots.py    | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 4218e53..5f76fbf 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -272,7 +272,8 @@ def plot_zdi_components(mgm, radius=1, axs=None, zg=None, symmetric=None, cmap=N
     Brpa = np.array([g(polar_centers, azimuth_centers) for g in getter_fns])
 
     axs = starwinds_magnetogram.plots.plot_components(polar_centers, azimuth_centers,
-                                                        Brpa, axs, azimuth_corners, polar_corners, radius)
+                                                        Brpa, axs, azimuth_corners, polar_corners, radius,
+                                                        symmetric=symmetric, cmap=cmap)
 
     return axs
 
diff --git a/starwinds_magnetogram/plots.py b/starwinds_magnetogram/plots.py
index b7b984c..da62881 100644
--- a/starwinds_magnetogram/plots.py
+++ b/starwinds_magnetogram/plots.py
@@ -44,7 +44,7 @@ def place_colorbar_axis_right(ax, dx=.22):
 
 
 def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_corners=None, polar_corners=None,
-                    radius=1, symmetric=None):
+                    radius=1, symmetric=None, cmap=None):
     latex_names = ('B_r', r'B_\theta', r'B_\phi')
     extremum_markers = ('ox', '^v', '<>')
 
@@ -58,7 +58,8 @@ def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_
                                                 polar_corners=polar_corners, azimuth_corners=azimuth_corners,
                                                 legend_str=latex_name,
                                                 abs_max=abs_max,
-                                                symmetric=symmetric)
+                                                symmetric=symmetric,
+                                                cmap=cmap)
 
         add_extrema(polar_centers, azimuth_centers, Bi, ax, legend_str=latex_name, markers=markers)
 
-- 
2.43.0


From 12425ec95f0e1100211a09970528618710c92783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 16/19] fix: reject unknown slice plane directions

---
 starwinds_magnetogram/pfss_magnetogram.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/pfss_magnetogram.py b/starwinds_magnetogram/pfss_magnetogram.py
index 3ff5e0a..e52fdce 100644
--- a/starwinds_magnetogram/pfss_magnetogram.py
+++ b/starwinds_magnetogram/pfss_magnetogram.py
@@ -314,5 +314,7 @@ def normal_plane(p1, p2, normal):
         return p3[..., np.newaxis], p1[..., np.newaxis], p2[..., np.newaxis]
     elif normal == "y":
         return p1[..., np.newaxis], p3[..., np.newaxis], p2[..., np.newaxis]
-    if normal == "z":
+    elif normal == "z":
         return p1[..., np.newaxis], p2[..., np.newaxis], p3[..., np.newaxis]
+    else:
+        raise ValueError(f"Unknown normal direction \"{normal}\".")
-- 
2.43.0


From 68e060ec6e1abc7c0cac820a106a63174dc28538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 17/19] fix: draw the field lines of the requested slice plane

---
 starwinds_magnetogram/plot_pfss.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/plot_pfss.py b/starwinds_magnetogram/plot_pfss.py
index 4e9b187..7317ffa 100644
--- a/starwinds_magnetogram/plot_pfss.py
+++ b/starwinds_magnetogram/plot_pfss.py
@@ -78,15 +78,20 @@ def plot_slice(coefficients, normal="x", rmax=5,
     fig.colorbar(im).set_label('Radial field strength')
 
     ax.set_aspect('equal')
-    ax.set_xlabel(r'Distance $x/r_{\star}$')
-    ax.set_ylabel(r'Distance $z/r_{\star}$')
+    # The two directions in the plane and their field components.
+    in_plane = [i for i in range(3) if "xyz"[i] != normal]
+    f1, f2 = [(fx, fy, fz)[i] for i in in_plane]
+    name1, name2 = ["xyz"[i] for i in in_plane]
+
+    ax.set_xlabel(r'Distance $%s/r_{\star}$' % name1)
+    ax.set_ylabel(r'Distance $%s/r_{\star}$' % name2)
 
     # Add star and source surface.
     radial_distance = np.squeeze((px**2 + py**2 + pz**2)**.5)
     ax.contour(p1[:, :], p2[:, :], radial_distance, levels=[radius_star, radius_source_surface], colors='k')
 
     # Add field lines:
-    ax.streamplot(py[..., 0], pz[..., 0], fy[..., 0], fz[..., 0], color='k')
+    ax.streamplot(p1, p2, f1[..., 0], f2[..., 0], color='k')
 
     return fig, ax
 
-- 
2.43.0


From 20452b085daf0138232dd506efd6df364012f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 18/19] fix: spectrum intervals contain every sample exactly
 once

---
 starwinds_magnetogram/plot_lsd.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index d27ac0b..9506b75 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -38,11 +38,8 @@ def wl_intervals(wavelengths, threshold=0.2):
     """
     abs_diffs = np.abs(np.diff(wavelengths))
     skips = np.where(abs_diffs > threshold)[0]
-    print(skips)
-    interval_starts = np.concatenate(([0],skips))
-    interval_ends = np.concatenate(
-        (skips + 1,
-         np.array([len(wavelengths)-1])))
+    interval_starts = np.concatenate(([0], skips + 1))
+    interval_ends = np.concatenate((skips + 1, [len(wavelengths)]))
     return zip(interval_starts, interval_ends)
 
 
-- 
2.43.0


From 4537441866e0a5fa18c303abc7c12fa50f44cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 19/19] fix: plot only the requested wavelength range

---
 starwinds_magnetogram/plot_lsd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index 9506b75..4a75232 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -53,6 +53,9 @@ def plot_spectrum(data, wl_range=None, size=.05, alpha=.15, colormap='viridis'):
     :param colormap: marker colormap
     :return:
     """
+    if wl_range is not None:
+        data = data[(data[:, 0] >= wl_range[0]) & (data[:, 0] <= wl_range[1])]
+
     fig, axs = plt.subplots(5, figsize=(12, 9), sharex=True)
 
     for (id0, id1) in wl_intervals(data[:, 0]):
-- 
2.43.0

