From 4269533fe75b7942ff5d1ac6b6e0440fb945da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 01/23] fix: SWMF header states the number of data lines of a
 coefficient set, not 1

---
 starwinds_magnetogram/reader_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 6a4d09b..524ae60 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -99,6 +99,7 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
     log.debug("Begin writing magnetogram file \"%s\"..." % file_name)
 
     coefficient_data_lines = []
+    num_sets = len(coefficient_sets.default_coefficients)
     for coefficients in shc.hsplit(coefficient_sets):
         # coefficient_data_lines.append(["%3d  %3d  %13e  %13e" % (d, m, np.real(data), np.imag(data)) for
         #                       (d, m, data) in zip(*coefficients.as_arrays(degree_l_max=degree_max,
@@ -112,7 +113,7 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
 
 
     if write_swmf_header:
-        header_lines = create_swmf_header(file_name, len(coefficient_data_lines[0]), degree_max,
+        header_lines = create_swmf_header(file_name, len(coefficient_data_lines) // num_sets, degree_max,
                                     carrington_rotation_number=0, dlon=0.0)
     else:
         header_lines = ["Output of %s" % __file__, "Order:%d" % degree_max]
-- 
2.43.0


From 9375537fd5177ba369b5ebe8a4207fd56d2a3724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 02/23] fix: ParkerSolution.speed and density no longer
 overwrite the caller's radii

---
 starwinds_magnetogram/parker_solution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 0051dd6..3e8eb85 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -99,8 +99,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds_dimensionless = self.find_parker_analytic(radii / self.radius_sonic)
         speeds = speeds_dimensionless * self.speed_sonic
@@ -112,8 +111,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds = self.speed(radii)
         densities = self.base_density * \
-- 
2.43.0


From 36eeef99cf8d3ca4051dec50c068dcc34cd0d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 03/23] fix: cartesian poloidal and toroidal fields use the
 current derivative methods

The toroidal one always raised AssertionError; the poloidal one did not add up to the full field.
---
 starwinds_magnetogram/zdi_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 18b37cd..c4df137 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -560,7 +560,7 @@ class ZdiMagnetogram:
         """
         # Field components in spherical coordinates
         frpa = [self.get_radial_poloidal_field(points_polar, points_azimuth),
-                self.get_polar_poloidal_field(points_polar, points_azimuth),
+                self.get_polar_poloidal_field_new(points_polar, points_azimuth),
                 self.get_azimuthal_poloidal_field(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
@@ -572,7 +572,7 @@ class ZdiMagnetogram:
         # Field components in spherical coordinates
         frpa = [self.get_radial_toroidal_field(points_polar, points_azimuth),
                 self.get_polar_toroidal_field(points_polar, points_azimuth),
-                self.get_azimuthal_toroidal_field(points_polar, points_azimuth)]
+                self.get_azimuthal_toroidal_field_new(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
 
-- 
2.43.0


From 920dfdd2f2f359ae9d2abc9a6d3e001595c1312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 04/23] fix: convert_pfss_to_zdi uses the source surface radius
 the PFSS evaluation uses

---
 starwinds_magnetogram/converter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/converter.py b/starwinds_magnetogram/converter.py
index 319dc01..2e8a487 100644
--- a/starwinds_magnetogram/converter.py
+++ b/starwinds_magnetogram/converter.py
@@ -126,7 +126,10 @@ def convert_zdi_to_pfss(zdi_radial_coeffs):
 
 
 def _beta_inverse_conversion_factor(degree_l, order_m):
-    R, _ = pfss_magnetogram.r_l(degree_l, 1, 1, 3)
+    R, _ = pfss_magnetogram.r_l(degree_l,
+                                pfss_magnetogram.default_radius_star,
+                                pfss_magnetogram.default_radius_star,
+                                pfss_magnetogram.default_radius_source_surface)
     return R * (degree_l + 1)
 
 
-- 
2.43.0


From 96735c95cddbae47801bf331887f0c68d4ca8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 05/23] fix: energy() does not require an axisymmetric dipole
 coefficient

---
 starwinds_magnetogram/zdi_magnetogram.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index c4df137..470280d 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -449,10 +449,8 @@ class ZdiMagnetogram:
             dict_['magnetogram.total.energy.toroidal.axisymmetric.fraction'] = toroidal_axisym / total_energy_toroidal
 
             
-            symdipfrac_numerator = (energy_alpha + energy_beta)[np.logical_and(self.degrees_l == 1, self.orders_m == 0)]
+            symdipfrac_numerator = np.sum((energy_alpha + energy_beta)[np.logical_and(self.degrees_l == 1, self.orders_m == 0)])
             symdipfrac_denominator = np.sum((energy_alpha + energy_beta)[self.degrees_l == 1])
-            assert len(symdipfrac_numerator) == 1
-            symdipfrac_numerator = symdipfrac_numerator[0]
             symdipfrac = symdipfrac_numerator / symdipfrac_denominator 
 
             dict_['magnetogram.total.energy.dipole.axisymmetric.fraction'] = symdipfrac
-- 
2.43.0


From 2ce4768daccbc7bc25ff665e8f27848f236d335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 06/23] fix: wl_intervals partitions the samples

Each interval started with the last sample of the previous one, and the last sample was left out.
---
 starwinds_magnetogram/plot_lsd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index d27ac0b..ad35bc1 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -38,11 +38,10 @@ def wl_intervals(wavelengths, threshold=0.2):
     """
     abs_diffs = np.abs(np.diff(wavelengths))
     skips = np.where(abs_diffs > threshold)[0]
-    print(skips)
-    interval_starts = np.concatenate(([0],skips))
+    interval_starts = np.concatenate(([0], skips + 1))
     interval_ends = np.concatenate(
         (skips + 1,
-         np.array([len(wavelengths)-1])))
+         np.array([len(wavelengths)])))
     return zip(interval_starts, interval_ends)
 
 
-- 
2.43.0


From b09a54e0b3415e461c1e0c21260d39f259e6687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 07/23] fix: Legendre values and derivatives are right at the
 poles and for negative orders

scipy.special.lpmn gives P(-1) the wrong sign and nan or inf derivatives at the poles, so the fields were nan
(or raised AssertionError) on the axis; negative orders were looked up from the end of the table.
---
 starwinds_magnetogram/associated_legendre.py | 29 +++++++++-----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index a702eba..f883e2c 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -4,27 +4,24 @@ import scipy.special
 
 def calculate_lpmn(degrees_l, orders_m, points_polar):
     r"""
-    Use scipy.lpmn to calculate the derivatives of the associated Legendre polynomial. The values returned
+    Calculate the values and the derivatives of the associated Legendre polynomial. The values returned
     are $P(\cos\theta)$ and $\partial \theta P(\cos \theta)$.
     :param points_polar: point polar angle values
     :return: tuple of values and derivative values. The last index corresponds to the order and degree.
     """
-    max_degree = np.max(degrees_l)
-    max_order = np.max(orders_m)
-    Pmn_cos_theta_result = np.empty(points_polar.shape + (max_order + 1, max_degree + 1))
-    Pmn_d_cos_theta_result = np.empty_like(Pmn_cos_theta_result)
+    degrees_l = np.asarray(degrees_l)
+    orders_m = np.asarray(orders_m)
+    cos_polar = np.cos(points_polar).reshape(points_polar.shape + (1,) * degrees_l.ndim)
 
-    for ndindex in np.ndindex(points_polar.shape):
-        a, b = scipy.special.lpmn(m=max_order,
-                                  n=max_degree,
-                                  z=np.cos(points_polar[ndindex]))
-        Pmn_cos_theta_result[ndindex] = a
+    def _plm(order_shift):
+        # P_l^m is zero for |m| > l.
+        orders = orders_m + order_shift
+        valid = np.abs(orders) <= degrees_l
+        return valid * scipy.special.lpmv(np.where(valid, orders, 0), degrees_l, cos_polar)
 
-        # Some values of b can be infinite
-        with np.errstate(invalid='ignore'):
-            Pmn_d_cos_theta_result[ndindex] = b * -np.sin(points_polar[ndindex])
+    Pmn_cos_theta_result = _plm(0)
 
-    Pmn_cos_theta_result = Pmn_cos_theta_result[..., orders_m, degrees_l]
-    Pmn_d_cos_theta_result = Pmn_d_cos_theta_result[..., orders_m, degrees_l]
+    # This recurrence for the derivative with respect to the polar angle also holds at the poles.
+    Pmn_d_cos_theta_result = .5 * (_plm(1) - (degrees_l + orders_m) * (degrees_l - orders_m + 1) * _plm(-1))
 
-    return Pmn_cos_theta_result, Pmn_d_cos_theta_result
\ No newline at end of file
+    return Pmn_cos_theta_result, Pmn_d_cos_theta_result
-- 
2.43.0


From e2cae9c1778846cd5c6d5f84d79d904b412e42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 08/23] fix: field components at the poles are the limit
 values, not NaN (ZDI) or 0 (PFSS)

---
 starwinds_magnetogram/associated_legendre.py | 15 +++++++++++++++
 starwinds_magnetogram/pfss_magnetogram.py    |  7 ++++---
 starwinds_magnetogram/zdi_magnetogram.py     | 14 ++++++++------
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index f883e2c..1fe38af 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -25,3 +25,18 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
     Pmn_d_cos_theta_result = .5 * (_plm(1) - (degrees_l + orders_m) * (degrees_l - orders_m + 1) * _plm(-1))
 
     return Pmn_cos_theta_result, Pmn_d_cos_theta_result
+
+
+def calculate_lpmn_over_sin(degrees_l, orders_m, points_polar):
+    r"""
+    Calculate $P(\cos\theta) / \sin\theta$ for nonzero orders. At the poles this is the limit value.
+    :param points_polar: point polar angle values
+    :return: values. The last index corresponds to the order and degree.
+    """
+    points_polar = np.asarray(points_polar)
+    plm, dplm = calculate_lpmn(degrees_l, orders_m, points_polar)
+    cos_polar = np.cos(points_polar).reshape(points_polar.shape + (1,) * np.ndim(degrees_l))
+    sin_polar = np.sin(points_polar).reshape(cos_polar.shape)
+    at_pole = np.abs(cos_polar) == 1
+
+    return np.where(at_pole, dplm, plm) / np.where(at_pole, cos_polar, sin_polar)
diff --git a/starwinds_magnetogram/pfss_magnetogram.py b/starwinds_magnetogram/pfss_magnetogram.py
index 3ff5e0a..1781614 100644
--- a/starwinds_magnetogram/pfss_magnetogram.py
+++ b/starwinds_magnetogram/pfss_magnetogram.py
@@ -218,9 +218,10 @@ def evaluate_spherical(
 
         field_radial    -= unscaled_radial
         field_polar     -= unscaled_polar / points_radial
-        field_azimuthal -= np.divide(unscaled_azimuthal, points_radial * np.sin(points_polar),
-                                     out=np.zeros_like(field_azimuthal),
-                                     where=unscaled_azimuthal != 0)
+        # At the poles, use the limit values there (l'Hopital).
+        at_pole = np.abs(np.cos(points_polar)) == 1
+        field_azimuthal -= np.divide(np.where(at_pole, _r_l[0] * buffered_dtheta[..., coeff_id] * _phi_lm[1], unscaled_azimuthal),
+                                     points_radial * np.where(at_pole, np.cos(points_polar), np.sin(points_polar)))
 
     # Set field inside star to zero
     field_radial[_invalid_inner_ids] = 0.0
diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 470280d..974b6ea 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -137,13 +137,14 @@ class ZdiMagnetogram:
         field_azimuthal_poloidal = np.zeros_like(points_azimuth, dtype=complex)
 
         for deg_l, ord_m, b_lm, c_lm in zip(self.degrees_l, self.orders_m, self.beta, self.c_lm):
-            p_lm = sp.special.lpmv(ord_m, deg_l, np.cos(points_polar))
+            if ord_m == 0:
+                continue  # The azimuth derivative is zero.
+            p_lm_over_sin = associated_legendre.calculate_lpmn_over_sin(deg_l, ord_m, points_polar)
             field_azimuthal_poloidal -= (b_lm
                                      * c_lm
-                                     * p_lm
+                                     * p_lm_over_sin
                                      * 1.0j * ord_m * np.exp(1.0j * ord_m * points_azimuth)
                                      / (deg_l + 1)
-                                     / np.sin(points_polar)
                                      )
 
         return np.real(field_azimuthal_poloidal)
@@ -255,13 +256,14 @@ class ZdiMagnetogram:
         field_polar_toroidal = np.zeros_like(points_azimuth, dtype=complex)
 
         for deg_l, ord_m, g_lm, c_lm in zip(self.degrees_l, self.orders_m, self.gamma, self.c_lm):
-            p_lm = sp.special.lpmv(ord_m, deg_l, np.cos(points_polar))
+            if ord_m == 0:
+                continue  # The azimuth derivative is zero.
+            p_lm_over_sin = associated_legendre.calculate_lpmn_over_sin(deg_l, ord_m, points_polar)
             field_polar_toroidal += (g_lm
                                          * c_lm
-                                         * p_lm
+                                         * p_lm_over_sin
                                          * 1.0j * ord_m * np.exp(1.0j * ord_m * points_azimuth)
                                          / (deg_l + 1)
-                                         / np.sin(points_polar)
                                          )
 
         return np.real(field_polar_toroidal)
-- 
2.43.0


From a74e785bdeff9682572890920b288c0159185517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:16 +0000
Subject: [PATCH 09/23] fix: longitudinal field of whole-number observer
 azimuths is no longer truncated to integers

---
 starwinds_magnetogram/longitudinal_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/longitudinal_field.py b/starwinds_magnetogram/longitudinal_field.py
index 569a3e9..0a72668 100644
--- a/starwinds_magnetogram/longitudinal_field.py
+++ b/starwinds_magnetogram/longitudinal_field.py
@@ -21,7 +21,7 @@ def get_longitudinal_field_curve(zdi_geometry, zdi_magnetogram, observer_polar,
     if observer_azimuths is None:
         observer_azimuths = np.deg2rad(np.linspace(0, 360, zdi_geometry.shape[0]))
 
-    longitudinal_fields = np.empty_like(observer_azimuths)
+    longitudinal_fields = np.empty_like(observer_azimuths, dtype=float)
 
     areas = zdi_geometry.areas()
 
-- 
2.43.0


From acedbd36c3f463634d11184c70e569a313ea188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:23 +0000
Subject: [PATCH 10/23] fix: Parker solution at the sonic point is 1, not NaN

---
 starwinds_magnetogram/parker_solution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 3e8eb85..02a5123 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -35,6 +35,10 @@ class AnalyticBase:
 
         _parker_rhs = cls.parker_rhs(radius_dimensionless)
 
+        # The branches meet at the sonic point, where rounding may place the argument outside the domain of lambertw.
+        if _parker_rhs < 1e-15:
+            return (1.0, 1.0) if all_sols else 1.0
+
         w = np.nan
 
         branches = (0, -1)
-- 
2.43.0


From e0dd6c90559bad7857c81a9f03043f050e6f27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 11/23] fix: plotted polar and azimuthal fields are labelled
 with their own components

---
 starwinds_magnetogram/bin/plot_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/bin/plot_magnetogram.py b/starwinds_magnetogram/bin/plot_magnetogram.py
index 955d3e8..9682ef2 100644
--- a/starwinds_magnetogram/bin/plot_magnetogram.py
+++ b/starwinds_magnetogram/bin/plot_magnetogram.py
@@ -43,8 +43,8 @@ def main():
     _star_name = guess_star_name_from_filename(args.input_file)
 
     _getters = {'radial': (lz.get_radial_field, 'B_r'),
-                'polar': (lz.get_polar_field, r'B_\phi'),
-                'azimuthal': (lz.get_azimuthal_field, r'B_\theta'),
+                'polar': (lz.get_polar_field, r'B_\theta'),
+                'azimuthal': (lz.get_azimuthal_field, r'B_\phi'),
                 'strength': (lz.get_field_strength, '|B|')}
     _getters['azimuth'] = _getters['azimuthal']
 
-- 
2.43.0


From 19a2bacd96866969297e0a430f9e2c5f880d5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 12/23] fix: pies of the energy summary show the fractions, not
 the fractions rescaled to fill the pie

---
 starwinds_magnetogram/plot_zdi.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 4218e53..146bdd8 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -10,6 +10,13 @@ import starwinds_magnetogram.geometry
 import starwinds_magnetogram.plots
 
 
+def _pie(ax, fractions, **kwargs):
+    """Pie chart of fractions of a whole, where fractions that add up to less than one leave a part of the pie empty."""
+    # Matplotlib otherwise rescales the fractions so that they fill the pie. When the fractions add up to one,
+    # rescaling only removes rounding errors.
+    return ax.pie(fractions, normalize=bool(sum(fractions) > 1 - 1e-6), **kwargs)
+
+
 def plot_energy_summary(zc, axs=None):
 
     if axs is None:
@@ -22,7 +29,7 @@ def plot_energy_summary(zc, axs=None):
     ax = axs[0]
     ax.set_title("Total energy")
 
-    w, *_ = ax.pie([results['magnetogram.poloidal.energy.fraction'],
+    w, *_ = _pie(ax, [results['magnetogram.poloidal.energy.fraction'],
                     results['magnetogram.toroidal.energy.fraction'],],
                        radius=2,
                        autopct='%1.0f%%',
@@ -35,7 +42,7 @@ def plot_energy_summary(zc, axs=None):
     wedges = list(w)
     wlabels = ["poloidal", "toroidal"]
 
-    w, *_ = ax.pie([results['magnetogram.radial.energy.fraction'],],
+    w, *_ = _pie(ax, [results['magnetogram.radial.energy.fraction'],],
                    radius=2,
                    autopct='%1.0f%%',
                    pctdistance=1,
@@ -48,7 +55,7 @@ def plot_energy_summary(zc, axs=None):
     wedges.extend(w)
     wlabels.append("radial")
 
-    w, *_ = ax.pie([results['magnetogram.total.energy.axisymmetric.fraction'],],
+    w, *_ = _pie(ax, [results['magnetogram.total.energy.axisymmetric.fraction'],],
                    radius=1,
                    # labels=("axisymmetric",),
                    autopct='%1.0f%%',
@@ -65,7 +72,7 @@ def plot_energy_summary(zc, axs=None):
     ax = axs[1]
     ax.set_title("Poloidal energy")
     labels = ("dipole", "quadrupole", "octopole")
-    w, *_ = ax.pie([results[f'magnetogram.total.energy.{c}.fraction'] for c in labels],
+    w, *_ = _pie(ax, [results[f'magnetogram.total.energy.{c}.fraction'] for c in labels],
            # labels=labels,
            radius=2,
            autopct='%1.1f%%',
@@ -78,7 +85,7 @@ def plot_energy_summary(zc, axs=None):
     wedges = list(w)
     wlabels = ["dipole", "quadrupole", "octopole"]
 
-    w, *_ = ax.pie([results['magnetogram.total.energy.poloidal.axisymmetric.fraction'],],
+    w, *_ = _pie(ax, [results['magnetogram.total.energy.poloidal.axisymmetric.fraction'],],
            radius=1,
            # labels=("axisymmetric",),
            autopct='%1.0f%%',
@@ -96,7 +103,7 @@ def plot_energy_summary(zc, axs=None):
         ax = axs[2]
         ax.set_title("Toroidal energy")
         labels = ("l1", "l2", "l3")
-        w, *_ = ax.pie([results[f'magnetogram.total.energy.toroidal.{c}.fraction'] for c in labels],
+        w, *_ = _pie(ax, [results[f'magnetogram.total.energy.toroidal.{c}.fraction'] for c in labels],
                # labels=labels,
                radius=2,
                autopct='%1.1f%%',
@@ -109,7 +116,7 @@ def plot_energy_summary(zc, axs=None):
         wedges = list(w)
         wlabels = ["$l1$", "$l2$", "$l3$"]
 
-        w, *_ = ax.pie([results['magnetogram.total.energy.toroidal.axisymmetric.fraction'],],
+        w, *_ = _pie(ax, [results['magnetogram.total.energy.toroidal.axisymmetric.fraction'],],
                radius=1,
                # labels=("axisymmetric",),
                autopct='%1.0f%%',
-- 
2.43.0


From 72729eb7d5c8d7bf4d49a083dc8aa36b11ccedd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 13/23] fix: LSD plots with a single parameter or a single
 profile

---
 starwinds_magnetogram/bin/plot_lsd.py | 1 +
 starwinds_magnetogram/plot_lsd.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/starwinds_magnetogram/bin/plot_lsd.py b/starwinds_magnetogram/bin/plot_lsd.py
index 172e915..c2bb195 100644
--- a/starwinds_magnetogram/bin/plot_lsd.py
+++ b/starwinds_magnetogram/bin/plot_lsd.py
@@ -28,6 +28,7 @@ def main():
 
     parameters = args.params
     _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True)
+    axs = np.atleast_1d(axs)
     plot_lsd.plot_lsd_profile(base_data, parameters=parameters)
     axs[0].set_title('Data in %s' % args.input_file)
 
diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index ad35bc1..a60a775 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -110,6 +110,7 @@ def plot_lsd_stack(data_stack, name_stack, y_lim=None):
     if len(fig.axes) != len(data_stack):
         log.debug('Create new plot with %d subplots' % len(data_stack))
         fig, axs = plt.subplots(len(data_stack), figsize=(12, len(data_stack)), sharex=True)
+        axs = np.atleast_1d(axs)
     else:
         log.debug('Reuse existing plot (with 3 subplots).')
 
-- 
2.43.0


From 56983967521dc6fe40b4a63f4e497f92380e77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 14/23] fix: slices of the potential field with normal y or z
 draw the field lines and labels of their own plane

---
 starwinds_magnetogram/plot_pfss.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/plot_pfss.py b/starwinds_magnetogram/plot_pfss.py
index 4e9b187..c752afa 100644
--- a/starwinds_magnetogram/plot_pfss.py
+++ b/starwinds_magnetogram/plot_pfss.py
@@ -78,15 +78,17 @@ def plot_slice(coefficients, normal="x", rmax=5,
     fig.colorbar(im).set_label('Radial field strength')
 
     ax.set_aspect('equal')
-    ax.set_xlabel(r'Distance $x/r_{\star}$')
-    ax.set_ylabel(r'Distance $z/r_{\star}$')
+    name_1, name_2 = {"x": "yz", "y": "xz", "z": "xy"}[normal]
+    ax.set_xlabel(r'Distance $%s/r_{\star}$' % name_1)
+    ax.set_ylabel(r'Distance $%s/r_{\star}$' % name_2)
 
     # Add star and source surface.
     radial_distance = np.squeeze((px**2 + py**2 + pz**2)**.5)
     ax.contour(p1[:, :], p2[:, :], radial_distance, levels=[radius_star, radius_source_surface], colors='k')
 
     # Add field lines:
-    ax.streamplot(py[..., 0], pz[..., 0], fy[..., 0], fz[..., 0], color='k')
+    f1, f2 = {"x": (fy, fz), "y": (fx, fz), "z": (fx, fy)}[normal]
+    ax.streamplot(p1, p2, f1[..., 0], f2[..., 0], color='k')
 
     return fig, ax
 
-- 
2.43.0


From 99c2cda1fbdf781a0e0b65c8fc7919318eec5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 15/23] fix: default coefficients are not shared with the
 caller's arrays

---
 starwinds_magnetogram/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index d282542..d61d612 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -13,7 +13,7 @@ class Coefficients(object):
     def __init__(self, default_coefficients=0j):
         """Create an empty set of coefficients"""
         self.coefficients = {}
-        self._default_coefficients = np.atleast_1d(default_coefficients)
+        self._default_coefficients = np.atleast_1d(default_coefficients).copy()
         self._degree_max = 0
         self._order_min = 0
 
@@ -53,7 +53,7 @@ class Coefficients(object):
         assert type(degree) == int, "Degree index must be integer"
         assert type(order) == int, "Order index must be integer"
 
-        return self.coefficients.get((degree, order), self._default_coefficients)
+        return self.coefficients.get((degree, order), self.default_coefficients)
 
     @property
     def degree_max(self):
-- 
2.43.0


From 79ecf8fa212dc129bef096b66ccbeb3721ac3838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 16/23] fix: colour bar ticks are placed on the scale of their
 own axis

---
 .../colorbar_manual_tickmarks.py              | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/starwinds_magnetogram/colorbar_manual_tickmarks.py b/starwinds_magnetogram/colorbar_manual_tickmarks.py
index 2f0cbf7..08cf31f 100644
--- a/starwinds_magnetogram/colorbar_manual_tickmarks.py
+++ b/starwinds_magnetogram/colorbar_manual_tickmarks.py
@@ -48,21 +48,21 @@ def fully_manual_tickmarks(axis, norm, major_values, major_labels, minor_values)
     :param minor_values:
     :return:
     """
-    ax = axis.axes
-    xlim = ax.get_xlim()
-    xmin = xlim[0]
-    xrange = xlim[1] - xlim[0]
+    # The axis has its own scale, so find the positions on the axis scale that have the fractions given by the norm.
+    scale = axis.get_transform()
+    start, end = np.sort(scale.transform(np.array(axis.get_view_interval())))
 
-    xticks_major = xrange * norm(major_values) + xmin
-    axis.set_ticks(xticks_major)
-    axis.set_ticklabels(major_labels)
+    def place(fractions):
+        return scale.inverted().transform(start + (end - start) * np.array(fractions))
 
-    xticks_minor = xrange * norm(minor_values) + xmin
+    axis.set_ticks(place(norm(major_values)))
+    axis.set_ticklabels(major_labels)
 
-    xticks_minor = xticks_minor[xticks_minor >= xlim[0]]
-    xticks_minor = xticks_minor[xticks_minor <= xlim[1]]
+    minor_fractions = np.array(norm(minor_values))
+    minor_fractions = minor_fractions[minor_fractions >= 0]
+    minor_fractions = minor_fractions[minor_fractions <= 1]
 
-    axis.set_ticks(xticks_minor, minor=True)
+    axis.set_ticks(place(minor_fractions), minor=True)
 
 
 def generate_major(log10_min, log10_max, log10_step):
-- 
2.43.0


From 6f58a644b4f17e1b762dbc5ca36ab71e82f41777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 17/23] fix: the conversion command refuses an output file that
 is the input file under another name

---
 starwinds_magnetogram/bin/convert_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/convert_magnetogram.py b/starwinds_magnetogram/bin/convert_magnetogram.py
index 4b563fd..eeff332 100644
--- a/starwinds_magnetogram/bin/convert_magnetogram.py
+++ b/starwinds_magnetogram/bin/convert_magnetogram.py
@@ -104,7 +104,7 @@ def _make_output_filename(input_file, output_name, postfix):
         if os.path.exists(output_name):
             raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
 
-    if input_file == output_name:
+    if input_file == output_name or (os.path.exists(output_name) and os.path.samefile(input_file, output_name)):
         raise ValueError("Input and output file names are the same. Please provide a (different) output file name.")
 
     return output_name
-- 
2.43.0


From 0159302b6b2589be5a427f731d73a54d8e139450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 18/23] fix: restricted parts of a magnetogram keep negative
 orders unless orders are restricted

---
 starwinds_magnetogram/zdi_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 974b6ea..4fb90c8 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -311,7 +311,7 @@ class ZdiMagnetogram:
     def as_dipole(self):
         return self.as_restricted(degree_l_range=1)
 
-    def as_restricted(self, degree_l_range=(0, 1000), order_m_range=(0, 1000)):
+    def as_restricted(self, degree_l_range=(0, 1000), order_m_range=(-1000, 1000)):
 
         degree_l_range = tuple(np.atleast_1d(degree_l_range))
         order_m_range = tuple(np.atleast_1d(order_m_range))
-- 
2.43.0


From cfb8ff8400c3c38d5beaa0e9fcdc276cb4652c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 19/23] fix: arithmetic on coefficient sets keeps the type of
 its result

Sums, products and powers were stored with the number type of the first set:
a real set plus or times a complex one, or times a complex number, lost its
imaginary part, and a set of integers was truncated by half a factor.
---
 starwinds_magnetogram/coefficients.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index d61d612..64d03a9 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -149,12 +149,12 @@ class Coefficients(object):
 
     def __pow__(self, power, modulo=None):
         assert modulo is None, "Modulo is not supported."
-        output = empty_like(self)
+        output = empty_like(self, np.ones_like(self.default_coefficients)**power)
         for (degree, order), coeffs in self.contents():
             output.append(degree, order, coeffs**power)
         return output
 
-    def __truediv__(self, value): return multiply(self, value**-1)
+    def __truediv__(self, value): return multiply(self, value**-1.0)
 
     def truncated(self, degree_max): return truncated(self, degree_max)
 
@@ -241,10 +241,14 @@ def isclose(shc0, shc1, **kwargs):
     return coeffs
 
 
-def empty_like(shc):
+def empty_like(shc, values=None):
     """
     Get empty set of spherical harmonics coefficients with same type of coefficients.
+    :param shc: Set of coefficients
+    :param values: Take the number type from these values, e.g. complex for the product of real and complex numbers.
     """
+    if values is not None:
+        return Coefficients(shc.default_coefficients.astype(values.dtype))
     return Coefficients(shc.default_coefficients)
 
 
@@ -311,7 +315,7 @@ def add(shc0, shc1):
     # Get all degree, order pairs from the objects
     keys = set.union(*[set(a.coefficients) for a in (shc0, shc1)])
 
-    shc = empty_like(shc0)
+    shc = empty_like(shc0, shc0.default_coefficients + shc1.default_coefficients)
     for degree, order in keys:
         v = shc0.get(degree, order) + shc1.get(degree, order)
         shc.append(degree, order, v)
@@ -328,7 +332,7 @@ def multiply(shc, value):
     """
     if type(value) != Coefficients:
         # Assume scalar
-        output = empty_like(shc)
+        output = empty_like(shc, shc.default_coefficients * value)
         for (degree, order), coeffs in shc.contents():
             output.append(degree, order, coeffs * value)
 
@@ -337,7 +341,7 @@ def multiply(shc, value):
     # Multiply coefficients of two objects.
     assert shc.default_coefficients.shape == value.default_coefficients.shape, "Incompatible coefficients."
 
-    result = empty_like(shc)
+    result = empty_like(shc, shc.default_coefficients * value.default_coefficients)
     keys = set.union(*[set(a.coefficients) for a in (shc, value)])  # Get all degree, order pairs from the object
     for degree, order in keys:
         v = shc.get(degree, order) * value.get(degree, order)
-- 
2.43.0


From 7b51d6d8c07197aa8512192cbf815daf6112133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 20/23] fix: energies are real numbers whatever the strength of
 the field

---
 starwinds_magnetogram/zdi_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 4fb90c8..be80005 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -511,7 +511,7 @@ class ZdiMagnetogram:
         if require_l_term:
             result *= self.degrees_l / (self.degrees_l + 1)
 
-        return np.real_if_close(result)
+        return np.real(result)
 
     def _dplm(self, p_lm, points_polar):
         """
-- 
2.43.0


From 72390225597250d1d8aa877d578551ea72a2e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:56 +0000
Subject: [PATCH 21/23] fix: corners of a grid are the caller's own arrays

---
 starwinds_magnetogram/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/geometry.py b/starwinds_magnetogram/geometry.py
index e51ae57..0a081a0 100644
--- a/starwinds_magnetogram/geometry.py
+++ b/starwinds_magnetogram/geometry.py
@@ -33,7 +33,7 @@ class ZdiGeometry:
 
     def corners(self):
         """Facet corner polar coordinates (polar, azimuth)"""
-        return self.polar_corners, self.azimuthal_corners
+        return self.polar_corners.copy(), self.azimuthal_corners.copy()
 
     # @cached_property
     def centers(self):
-- 
2.43.0


From 6ae5dfc7440592cf01c1e2efc68386c4511af676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:56 +0000
Subject: [PATCH 22/23] fix: changing a spherical harmonic no longer changes
 the cached one

---
 starwinds_magnetogram/image_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/image_converter.py b/starwinds_magnetogram/image_converter.py
index bf39932..fe60140 100644
--- a/starwinds_magnetogram/image_converter.py
+++ b/starwinds_magnetogram/image_converter.py
@@ -94,7 +94,7 @@ def spherical_harmonic(ord_m, deg_l, azimuth, polar, use_cache=True):
 
         ylm = _cached_spherical_harmonic(ord_m, deg_l, azimuth_tuple, polar_tuple)
 
-        return ylm
+        return ylm.copy()  # The cached array must not be changed by the caller.
     else:
         return sph_harm(ord_m, deg_l, azimuth, polar)
 
-- 
2.43.0


From dc44a5588d1529fd81f5303db9219702eb2b79fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:56 +0000
Subject: [PATCH 23/23] fix: spherical coordinates of short integer coordinates

---
 starwinds_magnetogram/coordinate_transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starwinds_magnetogram/coordinate_transforms.py b/starwinds_magnetogram/coordinate_transforms.py
index 695cd6b..c0e0e97 100644
--- a/starwinds_magnetogram/coordinate_transforms.py
+++ b/starwinds_magnetogram/coordinate_transforms.py
@@ -17,6 +17,9 @@ def spherical_coordinates_from_rectangular(px, py, pz):
     :param pz: z coordinates
     :return: radial, polar and azimuth coordinates
     """
+    # The squares of short integers would overflow.
+    px, py, pz = [np.asanyarray(p, dtype=float) for p in (px, py, pz)]
+
     pr = (px**2 + py**2 + pz**2)**(1/2)
     pp = np.arccos(np.divide(pz, pr, out=np.zeros_like(pr), where=pr != 0))
     pa = np.arctan2(py, px)
-- 
2.43.0

