From c69586d7c5713ab693184d0ad6e187eb378a2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:10 +0000
Subject: [PATCH 01/65] fix: to_wavenumber scales wavelength to cm in the right
 direction

A wavenumber spectrum did not survive conversion to itself (factor 1e4).
---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index e4aab07..507ae22 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -142,7 +142,7 @@ def to_wavenumber(unit, values):
     if not unit == '1/cm':
         raise NotImplementedError("support for wavenumber units" +
                                   " other than 1/cm not implemented")
-    inverse = safe_inverse(values*1e-2)
+    inverse = safe_inverse(values*1e2)
     return 2*np.pi*inverse
 
 class Spectrum(object):
-- 
2.43.0


From a63309a308b33dceddae6c9d8b3b35b54717661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:10 +0000
Subject: [PATCH 02/65] fix: safe_inverse_array only treats exact zeros as zero
 and supports integers

Arrays of wavelengths below 10 nm became infinite energies, integer arrays
raised or were truncated.
---
 src/dispersion/spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 507ae22..725c07c 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -23,9 +23,9 @@ def safe_inverse_array(values):
     takes the inverse of an array while converting values of 0 to inf
     and values of inf to 0
     '''
-    inverse = np.array(values)
-    zero_ind = np.isclose(values,0.0)
-    inf_ind = np.isclose(values,np.inf)
+    inverse = np.array(values, dtype=float)
+    zero_ind = values == 0.0
+    inf_ind = values == np.inf
     safe_inv_ind = ~ (zero_ind | inf_ind)
     inverse[zero_ind] = np.inf
     inverse[inf_ind] = 0.0
-- 
2.43.0


From a87a5f2617cde20768d7576a838113c3a36beb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:10 +0000
Subject: [PATCH 03/65] fix: convert_to accepts units case insensitively like
 the constructor

Data defined with e.g. unit='eV' could never be evaluated.
---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 725c07c..fbaf6c3 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -302,7 +302,7 @@ class Spectrum(object):
         if spectrum_type not in Spectrum.SPECTRUM_TYPES:
             raise ValueError("invalid spectrum type {}".format(spectrum_type))
 
-        unit = Spectrum.standardise_unit(spectrum_type, unit)
+        unit = Spectrum.standardise_unit(spectrum_type, unit.lower())
         values = self.standard_rep
 
         convert_methods = {'frequency': to_frequency,
-- 
2.43.0


From 47561b7a2912a1c98415454d0c2127b8a9595701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:10 +0000
Subject: [PATCH 04/65] fix: add missing display name for centimeter

Out of range requests for data in cm raised KeyError instead of ValueError.
---
 src/dispersion/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index fbaf6c3..01b0e02 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -168,6 +168,7 @@ class Spectrum(object):
                   'a': {'a', 'angstrom'}}
 
     DISPLAY_NAMES = {'m': 'm',
+                     'cm': 'cm',
                      'um': u'μm',
                      'nm': 'nm',
                      'hz': 'Hz',
-- 
2.43.0


From eb993adb766990528042fe3ee83f4c5fb945ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:10 +0000
Subject: [PATCH 05/65] fix: conversion to centimeter no longer rounds to 100
 nm

This made k computed from absorption coefficients wrong by up to 10 percent.
---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 01b0e02..b97a0ea 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -104,7 +104,7 @@ def to_wavelength(unit, values):
     if unit == 'm':
         converted_values = values
     elif unit == 'cm':
-        converted_values = np.round(values*1e2, decimals=5)
+        converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
         converted_values = np.round(values*1e9, decimals=12)
     elif unit == 'um':
-- 
2.43.0


From 2d394219f5becc292f25d101fdbf0854979378ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 06/65] fix: converting a spectrum to its own type and unit is
 exact

Round off made data unusable at the bounds of its own valid range.
---
 src/dispersion/spectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index b97a0ea..b9ab9a6 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -312,7 +312,10 @@ class Spectrum(object):
                            'wavenumber': to_wavenumber,
                            'wavelength': to_wavelength}
 
-        converted_values = convert_methods[spectrum_type](unit, values)
+        if spectrum_type == self.spectrum_type and unit == self.unit:
+            converted_values = self.values*1.0 # no round off errors
+        else:
+            converted_values = convert_methods[spectrum_type](unit, values)
         if in_place:
             self.values = converted_values
             self.spectrum_type = spectrum_type
-- 
2.43.0


From a2440fe8c6f5e442400d1a5461cf5df00138f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 07/65] fix: bounds of the valid range are not rejected due to
 unit conversion round off

e.g. plotting a table from 400 nm to 4100 nm raised ValueError.
---
 src/dispersion/spectral_data.py | 2 ++
 src/dispersion/spectrum.py      | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 481039f..931f4bc 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -220,6 +220,8 @@ class Interpolation(SpectralData):
 
         self.valid_range.contains(spectrum)
         values = spectrum.convert_to(self.spectrum_type, self.unit)
+        values = np.clip(values, np.min(self.valid_range.values),
+                         np.max(self.valid_range.values))
         return self.interpolation(values)
 
     def dict_repr(self):
diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index b9ab9a6..48beca1 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -229,9 +229,10 @@ class Spectrum(object):
         self_min = np.min(self.values)
         self_max = np.max(self.values)
         out_of_range = None
-        if other_min < self_min:
+        tol = {'rtol': 1e-9, 'atol': 0.0}  # unit conversion round off
+        if other_min < self_min and not np.isclose(other_min, self_min, **tol):
             out_of_range = other_min
-        elif other_max > self_max:
+        elif other_max > self_max and not np.isclose(other_max, self_max, **tol):
             out_of_range = other_max
         if out_of_range is not None:
             dsu = self.display_string(self.unit)  # display string unit
-- 
2.43.0


From d7f5c335b94dd0c779521d9234ae7b2b4c9da057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 08/65] fix: check the shape of tabulated_n_alpha instead of
 tabulated_nk

Material(tabulated_n_alpha=...) always raised AttributeError.
---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7cfe8ed..1fff7ea 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -217,7 +217,7 @@ class Material():
         if inputs['tabulated_nk'] is not None:
             _check_table_shape(inputs['tabulated_nk'], 3, 'nk')
         if inputs['tabulated_n_alpha'] is not None:
-            _check_table_shape(inputs['tabulated_nk'], 3, 'n_alpha')
+            _check_table_shape(inputs['tabulated_n_alpha'], 3, 'n_alpha')
         if inputs['tabulated_n'] is not None:
             _check_table_shape(inputs['tabulated_n'], 2, 'n')
         if inputs['tabulated_eps'] is not None:
-- 
2.43.0


From ad8c7badacd2a4f1b0d698cb11b69205836ee49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 09/65] fix: the interp_order argument of Material is passed on
 to the interpolation

It was documented but ignored.
---
 src/dispersion/material.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 1fff7ea..7b516e5 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -190,11 +190,11 @@ class Material():
             inputs['spectrum_type'] = 'wavelength'
         if inputs['unit'] is None:
             inputs['unit'] = 'nanometer'
-        if 'interp_order' not in inputs:
+        if inputs.get('interp_order') is None:
             inputs['interp_order'] = 1
         # pylint: disable=no-member
         # bug in pylint does not recognise numpy data types
-        int_args = {'interp_oder'}
+        int_args = {'interp_order'}
         int_types = {int}
         self._check_type(inputs, int_args, int_types)
 
@@ -516,7 +516,8 @@ class Material():
                             spectrum_type=spec_type, unit=unit)
 
         return Interpolation(data, spectrum_type=spec_type,
-                             unit=unit)
+                             unit=unit,
+                             interp_order=self.options['interp_oder'])
 
     def _process_formula_data(self, data_dict):
         '''prepare dictionary of data for processing.
-- 
2.43.0


From 814bc7c1c3e1a76ef0527f7c6b8da8924800b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 10/65] fix: maximum valid range is in default units and
 ordered for all materials

The range of models with complex output was read as if given in meter and
ranges other than wavelength were returned as (upper, lower), which also made
plotting e.g. a Drude model with infinite range fail.
---
 src/dispersion/material.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7b516e5..568812e 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -689,12 +689,16 @@ class Material():
             lower = np.max([real_lower, imag_lower])
             upper = np.min([real_upper, imag_upper])
         else:
-            lower = np.min(self.data['complex'].valid_range.values)
-            upper = np.max(self.data['complex'].valid_range.values)
+            lower = np.min(self.data['complex'].valid_range.standard_rep)
+            upper = np.max(self.data['complex'].valid_range.standard_rep)
         max_range = np.array([lower, upper])
         spec = Spectrum(max_range)
-        return spec.convert_to(self.defaults['spectrum_type'],
-                               self.defaults['unit'])
+        max_range = spec.convert_to(self.defaults['spectrum_type'],
+                                    self.defaults['unit'])
+        if not Spectrum.check_type(self.defaults['spectrum_type'],
+                                   'wavelength'):
+            max_range = max_range[::-1] # inversely proportional to wavelength
+        return max_range
 
     @staticmethod
     def utf8_to_ascii(string):
-- 
2.43.0


From 941c7819ca535aa976644bb96bed1a0d66c001c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 11/65] fix: extrapolation does not convert the spectrum of the
 caller in place

---
 src/dispersion/spectral_data.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 931f4bc..08e8e9f 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -139,13 +139,12 @@ class Extrapolation(SpectralData):
         that gives the lower and upper bound for an extrapolation
         """
         base_spectrum = self.base_spectral_data.valid_range
-        extended_spectrum.convert_to(spectrum_type= base_spectrum.spectrum_type,
-                                     unit= base_spectrum.unit,
-                                     in_place= True)
-        new_range = np.array(base_spectrum.values)
-        if isinstance(extended_spectrum.values, (list, tuple, np.ndarray)):
+        extrap_values = extended_spectrum.convert_to(
+            spectrum_type= base_spectrum.spectrum_type,
+            unit= base_spectrum.unit)
+        new_range = np.array(base_spectrum.values, dtype=float)
+        if isinstance(extrap_values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
-            extrap_values = extended_spectrum.values
             if extrap_values.size > 2:
                 raise ValueError("extrapolation spectrum may contain at most" +
                                  "2 values not {}".format(extrap_values.size))
@@ -153,8 +152,7 @@ class Extrapolation(SpectralData):
                 new_range = self.validate_extrap_val(extrap_val, new_range)
         else:
             # upper or lower
-            extrap_val = extended_spectrum.values
-            new_range = self.validate_extrap_val(extrap_val, new_range)
+            new_range = self.validate_extrap_val(extrap_values, new_range)
 
         return Spectrum(new_range,
                         spectrum_type= base_spectrum.spectrum_type,
@@ -191,9 +189,9 @@ class Extrapolation(SpectralData):
             self.base_spectral_data.valid_range.contains(spectrum)
             return self.base_spectral_data.evaluate(spectrum)
         except ValueError as e:
-            spectrum.convert_to(self.spectrum_type, self.unit, in_place=True)
             self.valid_range.contains(spectrum)
-            return splev(spectrum.values,self.extrapolation)
+            values = spectrum.convert_to(self.spectrum_type, self.unit)
+            return splev(values,self.extrapolation)
 
 
 class Interpolation(SpectralData):
-- 
2.43.0


From dbedd3aea13a122848ac0e8f13386d6027b2b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 12/65] fix: extrapolation keeps the base data at values inside
 the base range

As soon as one value was outside the base range, the values inside were also
taken from the spline.
---
 src/dispersion/spectral_data.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 08e8e9f..23b0c18 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -190,8 +190,19 @@ class Extrapolation(SpectralData):
             return self.base_spectral_data.evaluate(spectrum)
         except ValueError as e:
             self.valid_range.contains(spectrum)
-            values = spectrum.convert_to(self.spectrum_type, self.unit)
-            return splev(values,self.extrapolation)
+            values = np.asarray(spectrum.convert_to(self.spectrum_type,
+                                                    self.unit))
+            evaluation = np.array(splev(values, self.extrapolation))
+            base_range = self.base_spectral_data.valid_range.values
+            inside = ((values >= np.min(base_range)) &
+                      (values <= np.max(base_range)))
+            if np.any(inside):
+                base_spectrum = Spectrum(values[inside],
+                                         spectrum_type=self.spectrum_type,
+                                         unit=self.unit)
+                evaluation[inside] = self.base_spectral_data.evaluate(
+                    base_spectrum)
+            return evaluation
 
 
 class Interpolation(SpectralData):
-- 
2.43.0


From 3f4926ef7078589a193a20af1636b8218564bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 13/65] fix: a failing extrapolate call leaves the material
 unchanged

If only the imaginary part could not be extrapolated, the real part was
extrapolated nevertheless.
---
 src/dispersion/material.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 568812e..36dd4f0 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -292,12 +292,14 @@ class Material():
         """
 
         if self.data['complex'] is None:
+            extrapolated = {}
             for data_name in ['real', 'imag']:
                 if isinstance(self.data[data_name], Constant):
                     continue
-                self.data[data_name] = Extrapolation(self.data[data_name],
-                                                     new_spectrum,
-                                                     spline_order=spline_order)
+                extrapolated[data_name] = Extrapolation(self.data[data_name],
+                                                        new_spectrum,
+                                                        spline_order=spline_order)
+            self.data.update(extrapolated)
         else:
             raise NotImplementedError("extrapolation not implemented " +
                                       "for materials with real and imaginary "+
-- 
2.43.0


From b5bf2a47dc8b6dbec9bb92c31d51c3a1c2269596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 14/65] fix: effective media do not convert the spectrum of the
 caller in place

---
 src/dispersion/material.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 36dd4f0..fa8199d 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -923,7 +923,9 @@ class EffectiveMedium(Material):
         self.options = {'interp_oder':1}
         self.defaults = {'unit':'m',
                          'spectrum_type':'wavelength'}
-        self.spectrum = spectrum
+        self.spectrum = Spectrum(spectrum.values,
+                                 spectrum_type=spectrum.spectrum_type,
+                                 unit=spectrum.unit)
         self.mat1 = material1
         self.mat2 = material2
         self.frac = filling_fraction
-- 
2.43.0


From eed86965d78501e1053bf7e1157eb4dd7e275180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 15/65] fix: Maxwell Garnett detects singular effective media

The comparison was outside of np.any.
---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index fa8199d..7769b71 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -963,7 +963,7 @@ class MaxwellGarnett(EffectiveMedium):
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         factor_up = 2*(1-self.frac)*eps_base+(1+2*self.frac)*eps_incl
         factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl
-        if np.any(abs(factor_down)) < small_number_cutoff:
+        if np.any(abs(factor_down) < small_number_cutoff):
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
         self.spectrum.convert_to("wavelength", 'm', in_place=True)
-- 
2.43.0


From c901cfefa3cecab628e8535e2a9ffd9462fbbc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 16/65] fix: Bruggeman selects the physical solution despite
 round off

With a filling fraction of 0 or 1 a rounding error in the sign of the
imaginary part gave a permittivity of 0 or the unphysical solution. Also
scalar spectra failed for materials defined by a fixed permittivity.
---
 src/dispersion/material.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7769b71..5a9cb63 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -981,11 +981,10 @@ class Bruggeman(EffectiveMedium):
         solution2 = self._get_bruggeman_solution2(eps_b, eps_a)
         self.sol1 = solution1
         self.sol2 = solution2
-        indices1 = np.imag(solution1) >= 0.0
-        indices2 = np.imag(solution2) >= 0.0
-        eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
-        eps_eff[indices2] = solution2[indices2]
-        eps_eff[indices1] = solution1[indices1]
+        # exactly one solution has a positive imaginary part, unless both
+        # materials are free of absorption
+        eps_eff = np.where(np.imag(solution2) > np.imag(solution1),
+                           solution2, solution1)
         self.spectrum.convert_to("wavelength", 'm', in_place=True)
         table = np.vstack([[self.spectrum.values],
                                 [np.real(eps_eff)],
-- 
2.43.0


From f15c5da2a0e458866745512ed5661a39a4283a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 17/65] fix: effective media have meta data like any other
 material

Comparing or writing them raised AttributeError.
---
 src/dispersion/material.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 5a9cb63..a89608d 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -920,6 +920,9 @@ class EffectiveMedium(Material):
                      'real': None,
                      'imag': None,
                      'complex':None}
+        self.meta_data = {'Reference': "", 'Comment': "", 'Name': "",
+                          'FullName': "", 'Author': "", 'Alias': "",
+                          'MetaComment': "", 'Specification': {}}
         self.options = {'interp_oder':1}
         self.defaults = {'unit':'m',
                          'spectrum_type':'wavelength'}
-- 
2.43.0


From 209b8e16310a4291e439119680e3e0597806ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 18/65] fix: materials loaded from file have the same meta data
 keys as others

Comparing a material with a material from file raised KeyError.
---
 src/dispersion/material.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index a89608d..4aeed47 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -433,6 +433,7 @@ class Material():
         self.meta_data['Name'] = file_dict['MetaData']['Name']
         self.meta_data['FullName'] = file_dict['MetaData']['FullName']
         self.meta_data['Author'] = file_dict['MetaData']['Author']
+        self.meta_data['Alias'] = ""
         self.meta_data['MetaComment'] = file_dict['MetaData']['MetaComment']
         self.meta_data['Specification'] = file_dict['MetaData']['Specification']
         datasets = file_dict['Datasets']
-- 
2.43.0


From 032fe7940a50444bd2a8242f691b44b1fef0a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 19/65] fix: Retro model solves (n^2-1)/(n^2+2) = rhs

This is formula 8 of refractiveindex.info, e.g. AgBr has n=2.25 at 600 nm, not 3.4.
---
 src/dispersion/spectral_data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 23b0c18..4885388 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -542,10 +542,8 @@ class Retro(Model):
         rhs += self.model_parameters[1]*wvlsq/(wvlsq-self.model_parameters[2])
         rhs += self.model_parameters[3]*wvlsq
 
-        tmp_p = -2*rhs/(1-rhs)
-        tmp_q = -1/(1-rhs)
-
-        ref_index = -0.5*tmp_p + np.sqrt(np.power(0.5*tmp_p, 2) - tmp_q)
+        # (n^2-1)/(n^2+2) = rhs
+        ref_index = np.sqrt((1+2*rhs)/(1-rhs))
         return ref_index
 
 class Exotic(Model):
-- 
2.43.0


From 9a69fc18c30b11c828877f1dce9d1fa703473171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 20/65] fix: Exotic model uses C2/(wvl^2-C3)

This is formula 9 of refractiveindex.info.
---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 4885388..44cea38 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -568,7 +568,7 @@ class Exotic(Model):
         rhs = self.model_parameters[0]*ones
         wvlsq = np.power(wavelengths, 2)
 
-        rhs += self.model_parameters[1]*wvlsq/(wvlsq - self.model_parameters[2])
+        rhs += self.model_parameters[1]/(wvlsq - self.model_parameters[2])
         rhs += (self.model_parameters[3]*(wavelengths -self.model_parameters[4])/
                 (np.power(wavelengths - self.model_parameters[4], 2) +
                  self.model_parameters[5]))
-- 
2.43.0


From a75de84c7c670ac52d806c0614bd79a6847c1b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 21/65] fix: Tauc Lorentz model can be evaluated for a scalar
 spectrum

---
 src/dispersion/spectral_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 44cea38..21b2200 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -652,7 +652,8 @@ class TaucLorentz(Model):
         return eps
 
     def _calc_eps_imag(self, ones, energies, A, E0, C, Eg):
-        eps_imag = ones
+        eps_imag = np.array(ones)
+        energies = np.asarray(energies)
         E = energies[energies>=Eg]
         eps_imag[energies>=Eg] = ( (1./E) *A*E0*C*(E-Eg)**2 /
                                    ((E**2-E0**2)**2+C**2*E**2))
-- 
2.43.0


From aa974460856d304f264275407c55b511359790af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 22/65] fix: interpolation keeps its table in ascending order

Writing a table given in descending order resulted in a file from which all
but the first row are dropped when reading.
---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 21b2200..dde2613 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -210,7 +210,7 @@ class Interpolation(SpectralData):
 
     def __init__(self, data, spectrum_type='wavelength',
                  unit='m', interp_order=1):
-        self.data = data
+        self.data = data[np.argsort(data[:, 0], kind='stable')]
         self.interp_order = interp_order
         min_range = np.min(data[:, 0])
         max_range = np.max(data[:, 0])
-- 
2.43.0


From 6e496a63df8574f8a6277ac7f8eadf31476021dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 23/65] fix: tables are converted to strings without loss of
 data

Tables with more than 1000 entries were abbreviated, values were rounded to 8
digits and long rows were wrapped. Rounding also meant that n and k could not
be combined to nk, so that k was lost when writing a text file.
---
 src/dispersion/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f9017bc..4eb50ca 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -62,7 +62,9 @@ def _numeric_to_string_table(table):
     """
     returns a string representation of a numpy array
     """
-    string_array = np.array2string(table)
+    string_array = np.array2string(np.asarray(table), floatmode='unique',
+                                   threshold=sys.maxsize,
+                                   max_line_width=sys.maxsize)
     no_brackets = re.sub(r'[\[\]]', '', string_array)
     no_indent = re.sub(r'\n ', r"\n", no_brackets)
     no_indent = no_indent.rstrip().lstrip()
-- 
2.43.0


From 7afa1bd37a7217168bfa58352e45590df6d834bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 24/65] fix: text files are written with full precision

E.g. wavelengths in meter were rounded to 10 nm.
---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 4eb50ca..6fa914b 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -661,7 +661,7 @@ class Writer():
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
-                   fmt="%.8f")
+                   fmt="%s")
 
 
     def _write_yaml_file(self):
-- 
2.43.0


From 0d99ba350727029b19ed36e513e3c181374450dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 25/65] fix: materials with complex data can be written to file

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 4aeed47..39747ad 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -864,7 +864,7 @@ class Material():
         if self.data['complex'] is None:
             data_parts = ['real', 'imag']
         else:
-            data_parts = 'complex'
+            data_parts = ['complex']
 
 
         for data_part in data_parts:
-- 
2.43.0


From 9a8938bccb61bfcaa647871091f26c48845a7b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 26/65] fix: reading a yaml file keeps the last character of
 the meta comment

---
 src/dispersion/io.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 6fa914b..f93881d 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -431,7 +431,6 @@ class Reader():
         file_dict = dict(self.default_file_dict)
         file_dict = self._process_mat_dict(file_dict, yaml_data)
         mcomment = "\n".join(self._read_text_comment())
-        mcomment = mcomment[:-1]
         file_dict['MetaData']['MetaComment'] = mcomment
         return file_dict
 
-- 
2.43.0


From 3917685915b31b7e165b226242c9bcf5429496ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 27/65] fix: meta comment of text files does not grow with
 every write and read

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f93881d..4f944ca 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -410,7 +410,7 @@ class Reader():
                     multi_line_comment += line + "\n"
 
         if multi_line_comment != "":
-            file_dict['MetaData']['MetaComment'] = multi_line_comment
+            file_dict['MetaData']['MetaComment'] = multi_line_comment.rstrip()
         dataset = file_dict['Datasets'][0]
 
         if dataset['DataType'] == "":
-- 
2.43.0


From 9de6d5445644421ea1922c340a926e1e07482a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 28/65] fix: text files with a single row of data can be read

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 4f944ca..e90a5b8 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -349,7 +349,7 @@ class Reader():
         except IOError as exc:
             raise exc
         data_dict = self._create_default_data_dict()
-        data_dict['Data'] = data
+        data_dict['Data'] = np.atleast_2d(data)
         return data_dict
 
     def _read_text_comment(self):
-- 
2.43.0


From 01cd36781503f9cc7daecee5eabc815cc8824be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 29/65] fix: writing data to a text file which cannot be
 represented raises ValueError

If real and imaginary part are tabulated at different spectral values, the
imaginary part was silently lost.
---
 src/dispersion/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index e90a5b8..55b703c 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -637,7 +637,13 @@ class Writer():
         #         header += "{}: {}\n".format(item[1], self.file_dict[item[0]])
         if len(self.file_dict['Datasets']) < 1:
             raise ValueError("no datasets present in the file dict")
-        data_dict = self.file_dict["Datasets"][0]
+        data_dicts = [data_dict for data_dict in self.file_dict["Datasets"]
+                      if "constant" not in data_dict['DataType']]
+        if (len(data_dicts) != 1 or
+                not data_dicts[0]['DataType'].startswith('tabulated')):
+            raise ValueError("text files must contain exactly one tabulated "+
+                             "data set")
+        data_dict = data_dicts[0]
 
         spec_type = multi_key(data_dict, {'spectrum_type', 'SpectrumType'})
         header += "SPECTRUMTYPE: {}\n".format(spec_type)
-- 
2.43.0


From 74a2772659b62c45f312f8eda5d652a665072054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 30/65] fix: .nk files can be written

write_file raised UnboundLocalError.
---
 src/dispersion/io.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 55b703c..6543613 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -216,7 +216,7 @@ def print_yaml_string(dict_like):
     else:
         print(yaml.dump(dict_like))
 
-def prepend_text_to_file(file_path, text, extra_line=False):
+def prepend_text_to_file(file_path, text, extra_line=False, comment="#"):
     """
     read information from a file and rewrite with text prepended
     """
@@ -225,8 +225,8 @@ def prepend_text_to_file(file_path, text, extra_line=False):
 
     with open(file_path, 'w', encoding='utf8') as fpt:
         text = text.rstrip('\n\r')
-        text = text.replace("\n", "\n#")
-        text = "#" + text
+        text = text.replace("\n", "\n" + comment)
+        text = comment + text
         text += "\n"
         if extra_line:
             text += "\n"
@@ -608,7 +608,9 @@ class Writer():
         if self.extension in txt_types:
             self._write_text_file()
             if not meta_comment == "":
-                prepend_text_to_file(self.file_path, meta_comment)
+                comment = ";" if self.extension == '.nk' else "#"
+                prepend_text_to_file(self.file_path, meta_comment,
+                                     comment=comment)
         elif self.extension == '.yml':
             self._write_yaml_file()
             if not meta_comment == "":
@@ -657,15 +659,20 @@ class Writer():
         #                               "supported for tabulated_nk and"+
         #                               "tabulted_n data.")
 
+        comments = "# "
         if self.extension == '.txt':
             delimiter = "\t"
         elif self.extension == '.csv':
             delimiter = ","
+        elif self.extension == '.nk':
+            delimiter = "\t"
+            comments = "; "
         data = multi_key(data_dict, {'data', 'Data'})
         data = _str_table_to_numeric(data)
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
+                   comments=comments,
                    fmt="%s")
 
 
-- 
2.43.0


From a0edadf224e424e6cfc7b7716a6607736f6baf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 31/65] fix: tabulated permittivity can be read back after
 writing

The data types eps_r and eps_k written to file were ignored when reading, and
combining tables of different length failed.
---
 src/dispersion/material.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 39747ad..b754fbe 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -492,6 +492,12 @@ class Material():
             self.data['name'] = 'eps'
             self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
             self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])
+        elif identifier == 'eps_r':
+            self.data['name'] = 'eps'
+            self.data['real'] = self._spec_data_from_table(table)
+        elif identifier == 'eps_k':
+            self.data['name'] = 'eps'
+            self.data['imag'] = self._spec_data_from_table(table)
 
 
     def _spec_data_from_table(self, data):
@@ -882,10 +888,10 @@ class Material():
     def collapse_datasets(self, datasets):
         n_collapsable = 0
         for dataset in datasets:
-            if dataset['DataType'] == 'tabulated n':
+            if dataset['DataType'] in {'tabulated n', 'tabulated eps_r'}:
                 n_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
-            if dataset['DataType'] == 'tabulated k':
+            if dataset['DataType'] in {'tabulated k', 'tabulated eps_k'}:
                 k_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
 
@@ -893,7 +899,7 @@ class Material():
             return datasets
 
         collapse = True
-        if not np.all(n_data[:, 0] == k_data[:, 0]):
+        if not np.array_equal(n_data[:, 0], k_data[:, 0]):
             collapse = False
 
         if datasets[0]['Unit'] != datasets[1]['Unit']:
@@ -908,7 +914,7 @@ class Material():
         new_dataset = {}
         new_dataset['Unit'] = datasets[0]['Unit']
         new_dataset['SpectrumType'] = datasets[0]['SpectrumType']
-        new_dataset['DataType'] = 'tabulated nk'
+        new_dataset['DataType'] = 'tabulated ' + self.data['name']
         k_data = k_data[:, 1].reshape(k_data.shape[0], 1)
         new_data = np.concatenate([n_data, k_data], axis=1)
         new_dataset['Data'] = _numeric_to_string_table(new_data)
-- 
2.43.0


From 0d7cc55b8824377d9cb1ff9e8c6161dbd5aa4a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 32/65] fix: build the catalogue with pandas.concat

DataFrame.append was removed in pandas 2, so no catalogue could be built.
---
 src/dispersion/catalogue.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 59aa090..6feb574 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -20,9 +20,6 @@ import os
 import warnings
 import numpy as np
 import pandas as pd
-ver = pd.__version__
-split = ver.split(".")
-PANDAS_MINOR_VERSION = int(split[1])
 
 from dispersion.material import Material
 from dispersion.spectrum import Spectrum
@@ -133,7 +130,7 @@ class Catalogue(object):
         all_modules = {'RefractiveIndexInfo':self.read_ri_info_db,
                        'Filmetrics':self.read_filmetrics_db,
                        'UserData':self.read_user_data_db}
-        df_new = pd.DataFrame(columns=Catalogue.META_DATA.keys())
+        dframes = []
         for module, valid in config_modules.items():
             if valid:
                 if module in rebuild or rebuild == 'All':
@@ -142,26 +139,19 @@ class Catalogue(object):
                     dir_path = os.path.join(self.base_path, db_path)
                     read_function = all_modules[module]
                     dframe = read_function(dir_path)
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
                 else:
                     dframe = df[df.Module == module]
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
-
+                if not dframe.empty:
+                    dframes.append(dframe)
             else:
                 if rebuild == module:
                     raise ValueError("Tried to rebuild module" +
                                      "{}".format(rebuild) +
                                      ", however this module is disabled" +
                                      " in the configuration.")
-        return df_new
+        if not dframes:
+            return pd.DataFrame(columns=Catalogue.META_DATA.keys())
+        return pd.concat(dframes, ignore_index=True)
 
     def view_interactive(self):
         """
-- 
2.43.0


From 885b5d269de62fc738e8048be99194cc2ff836e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 33/65] fix: register_alias works with a slice of the database

DataFrame.at only accepts scalars. Also unknown rows are rejected instead of
being added to the catalogue as empty rows.
---
 src/dispersion/catalogue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 6feb574..d53847a 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -216,13 +216,18 @@ class Catalogue(object):
         """
         index = None
         if isinstance(row_id, pd.core.frame.DataFrame):
-            index = row_id.index
+            if row_id.shape[0] != 1:
+                raise ValueError("row_id must contain exactly one row")
+            index = row_id.index[0]
         elif isinstance(row_id, int):
             index = row_id
         if index is None:
             raise ValueError("row_id: {}".format(row_id) +
                              " with type {}".format(type(row_id)) +
                              " not understood")
+        if index not in self.database.index:
+            raise ValueError("row_id: {}".format(row_id) +
+                             " is not a row of the catalogue")
         if alias in self.database.loc[:, 'Alias'].values:
             if not self.database.at[index, 'Alias'] == alias:
                 raise ValueError("Alias {} ".format(alias) +
-- 
2.43.0


From 71429031266fb29d2dd2a2681926697fee274cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 34/65] fix: get_material finds the row of the alias for any
 database index

Index labels were used as row positions, giving a wrong material if the
database was sorted or filtered. An empty string is not an alias.
---
 src/dispersion/catalogue.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index d53847a..e379aa3 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -240,9 +240,8 @@ class Catalogue(object):
         """get a material from the catalogue using its alias or row number"""
         if isinstance(identifier, str):
             bool_array = self.database.Alias.values == identifier
-            bool_list = bool_array.tolist()
-            row_index = self.database.index[bool_list]
-            if row_index.size == 0:
+            row_index = np.flatnonzero(bool_array)
+            if row_index.size == 0 or identifier == "":
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-- 
2.43.0


From f4ac0f6c4edd5130f4b1bf63f3d9929d4f9bc804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 35/65] fix: catalogue bounds of user data are in the unit
 given in the catalogue

The bounds were in the unit of the file but labelled as nanometer.
---
 src/dispersion/catalogue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index e379aa3..6680efa 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -404,7 +404,11 @@ class Catalogue(object):
             content_dict['Reference'] = mat.meta_data['Reference']
             content_dict['SpectrumType'] = "wavelength"
             content_dict['Unit'] = 'nanometer'
-            valid_range = mat.get_maximum_valid_range()
+            valid_range = Spectrum(mat.get_maximum_valid_range(),
+                                   mat.defaults['spectrum_type'],
+                                   mat.defaults['unit'])
+            valid_range = np.sort(valid_range.convert_to('wavelength',
+                                                         'nanometer'))
             content_dict['SpectrumLowerBound'] = valid_range[0]
             content_dict['SpectrumUpperBound'] = valid_range[1]
             content_dict['Path'] = os.path.normpath(filename)
-- 
2.43.0


From a2cb981287da2fbace880bed049aa49d9f91c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 36/65] fix: create missing parents of the configuration
 directory

Without ~/.config the package could not be imported.
---
 src/dispersion/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 62f561d..f23663d 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -82,8 +82,7 @@ def _get_user_config_dir():
         home_dir = os.environ["HOME"]
         config_dir = os.path.join(home_dir, ".config",
                                   "dispersion")
-    if not os.path.exists(config_dir):
-        os.mkdir(config_dir)
+    os.makedirs(config_dir, exist_ok=True)
     return config_dir
 
 def _get_package_dir():
-- 
2.43.0


From 970e0bd83dac0e0b0406ed46a201f748a13e7a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 37/65] fix: get_config returns the default if there is no
 configuration file

This is the documented behaviour but ValueError was raised.
---
 src/dispersion/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index f23663d..6c5d2b0 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -145,7 +145,7 @@ def get_config():
     """
     try:
         config = read_config()
-    except OSError as exc:
+    except (OSError, ValueError) as exc:
         warn("No configuration file found, generating default config.")
         config = default_config()
     return config
-- 
2.43.0


From 758fbf175cc634fa0cbd4aad04d6b387b3a9b235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 38/65] fix: valid_file_name rejects names with a directory
 part

A file was created or opened outside of the temporary directory.
---
 src/dispersion/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 6543613..8751bd1 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -240,6 +240,8 @@ def valid_file_name(filename):
     create a file with the filename in a temporary directory and delete the
     directory afterwards.
     """
+    if os.path.basename(filename) != filename:
+        return False
     with tempfile.TemporaryDirectory() as temp_dir:
         file_path = os.path.join(temp_dir, filename)
         try:
-- 
2.43.0


From b2215b1a9b86544a86b82c5040175141445dc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 39/65] fix: setup script creates the root directory if it does
 not exist

---
 src/dispersion/scripts/setup_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0e1832d..0ac8ba1 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -108,7 +108,7 @@ def install_modules(conf):
         if install:
             module_dir = os.path.join(conf['Path'], module)
             if not os.path.isdir(module_dir):
-                os.mkdir(module_dir)
+                os.makedirs(module_dir)
             success = install_funcs[module](module_dir)
             if success is False:
                 conf['Modules'][module] = success
-- 
2.43.0


From abe49e78aa3d03ac537ee8d397fbda187a9c4181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 40/65] fix: setup script recognises the current
 refractiveindex.info layout

The catalogue is built from catalog-nk.yml since 1.0.6, but the module was
disabled if library.yml was missing.
---
 src/dispersion/scripts/setup_dispersion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0ac8ba1..0191052 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -193,7 +193,9 @@ def install_rii(module_dir, ask_confirm=True):
                           " refractive index info module will be disabled")
             return False
         database_file = os.path.join(database_dir, "library.yml")
-        if not os.path.isfile(database_file):
+        catalog_file = os.path.join(database_dir, "catalog-nk.yml")
+        if not (os.path.isfile(database_file) or
+                os.path.isfile(catalog_file)):
             warnings.warn("library file for refractive index info module"+
                           " not present: {}".format(database_file) +
                           " refractive index info module will be disabled")
-- 
2.43.0


From 90e3a2eb53d8ca5682fb38138735a2a5d6a7f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 41/65] fix: plot materials at a single spectral value

The private color cycler was removed from matplotlib.
---
 src/dispersion/material.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index b754fbe..8abe281 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -760,11 +760,11 @@ class Material():
         axes = plot_data['axes']
         plt.sca(axes)
         spectrum = plot_data['spectrum']
-        if spectrum.values.size == 1:
-            color = next(axes._get_lines.prop_cycler)['color']
-            plt.axhline(data_r, label=labels[0], color=color)
-            color = next(axes._get_lines.prop_cycler)['color']
-            plt.axhline(data_i, label=labels[1], ls='--', color=color)
+        if np.size(spectrum.values) == 1:
+            color = axes._get_lines.get_next_color()
+            plt.axhline(np.squeeze(data_r), label=labels[0], color=color)
+            color = axes._get_lines.get_next_color()
+            plt.axhline(np.squeeze(data_i), label=labels[1], ls='--', color=color)
         else:
             plt.plot(spectrum.values, data_r, label=labels[0])
             plt.plot(spectrum.values, data_i, ls='--', label=labels[1])
-- 
2.43.0


From 6da2260424b166f7dc6b0f1bfc7f4d6b866fc4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:26 +0000
Subject: [PATCH 42/65] fix: Bruggeman branch does not depend on the sign of a
 round off loss

---
 src/dispersion/material.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 8abe281..b0c6512 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -992,9 +992,10 @@ class Bruggeman(EffectiveMedium):
         self.sol1 = solution1
         self.sol2 = solution2
         # exactly one solution has a positive imaginary part, unless both
-        # materials are free of absorption
-        eps_eff = np.where(np.imag(solution2) > np.imag(solution1),
-                           solution2, solution1)
+        # materials are free of absorption (up to round off)
+        loss_diff = np.imag(solution2) - np.imag(solution1)
+        round_off = 1e-12*np.abs(solution2 - solution1)
+        eps_eff = np.where(loss_diff > round_off, solution2, solution1)
         self.spectrum.convert_to("wavelength", 'm', in_place=True)
         table = np.vstack([[self.spectrum.values],
                                 [np.real(eps_eff)],
-- 
2.43.0


From 90c71702e74fcbe767151d664719b38fed648044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:07 +0000
Subject: [PATCH 43/65] fix: tables read from file with repeated spectral
 values can be interpolated

---
 src/dispersion/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 8751bd1..84830e5 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -93,8 +93,9 @@ def _str_table_to_numeric(table):
     else:
         raise TypeError("table of type " +
                         "{} cannot be parsed".format(type(table)))
-    if validate_table(numeric_table) is False:
-        numeric_table = fix_table(numeric_table)
+    if not validate_table(numeric_table):
+        order = np.argsort(numeric_table[:, 0], kind='stable')
+        numeric_table = fix_table(numeric_table[order])
     return numeric_table
 
 
-- 
2.43.0


From 4725a64ad730a064b4086d6a93e97ab6b0644a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:40 +0000
Subject: [PATCH 44/65] fix: an unknown type of tabulated data in a file raises
 an error

---
 src/dispersion/material.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index b0c6512..3472208 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -498,7 +498,9 @@ class Material():
         elif identifier == 'eps_k':
             self.data['name'] = 'eps'
             self.data['imag'] = self._spec_data_from_table(table)
-
+        else:
+            raise ValueError("tabulated data type " +
+                             "{} not supported".format(identifier))
 
     def _spec_data_from_table(self, data):
         '''
-- 
2.43.0


From f313692c04b1458452de1c5652015402985de6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:40 +0000
Subject: [PATCH 45/65] fix: a formula with a single coefficient can be read
 from a yaml file

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 3472208..86cf1b3 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -552,7 +552,7 @@ class Material():
             valid_range[i_valid_range] = float(v_range)
         model_dict['valid_range'] = valid_range
 
-        coefficients = data_dict['Data'].split()
+        coefficients = str(data_dict['Data']).split()
         for iter_coeff, coeff in enumerate(coefficients):
             coefficients[iter_coeff] = float(coeff)
         model_dict['parameters'] = np.array(coefficients)
-- 
2.43.0


From 8d19115a3d263bd0494000af7a3c05423506e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:38 +0000
Subject: [PATCH 46/65] fix: a written material keeps its own spectral type and
 unit when its parts use different ones

---
 src/dispersion/material.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 86cf1b3..ae12745 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -884,6 +884,10 @@ class Material():
                 data_dict['DataType'] = dtype
 
             datasets.append(data_dict)
+        # the reader uses the type and unit of the last data set as defaults
+        own = (self.defaults['spectrum_type'], self.defaults['unit'])
+        datasets.sort(key=lambda dset: (dset['SpectrumType'],
+                                        dset['Unit']) == own)
         datasets = self.collapse_datasets(datasets)
         return datasets
 
-- 
2.43.0


From e9f83e5bdd09549b4abc6658a708864b2bb58de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:26 +0000
Subject: [PATCH 47/65] fix: constant data that a file cannot hold raises
 ValueError instead of IndexError or being dropped

---
 src/dispersion/io.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 84830e5..4b2dac0 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -625,6 +625,20 @@ class Writer():
                              ", supported extensions are (.yml|.csv|.txt)")
 
 
+    def _drop_constants(self):
+        """
+        data sets to be written, a part which is constantly zero is implied
+        """
+        datasets = []
+        for dataset in self.file_dict['Datasets']:
+            if "constant" not in dataset['DataType']:
+                datasets.append(dataset)
+            elif dataset['Value'] != 0:
+                raise ValueError("constant data cannot be written to file")
+        if not datasets:
+            raise ValueError("no data sets which can be written to file")
+        return datasets
+
     def _write_text_file(self):
         """
         writer for .txt, .csv and .nk files
@@ -642,8 +656,7 @@ class Writer():
         #         header += "{}: {}\n".format(item[1], self.file_dict[item[0]])
         if len(self.file_dict['Datasets']) < 1:
             raise ValueError("no datasets present in the file dict")
-        data_dicts = [data_dict for data_dict in self.file_dict["Datasets"]
-                      if "constant" not in data_dict['DataType']]
+        data_dicts = self._drop_constants()
         if (len(data_dicts) != 1 or
                 not data_dicts[0]['DataType'].startswith('tabulated')):
             raise ValueError("text files must contain exactly one tabulated "+
@@ -690,14 +703,9 @@ class Writer():
                 pop_keys.append(key)
         for key in pop_keys:
             self.file_dict.pop(key)
-        pop_dataset = []
-
-        for ids, dataset in enumerate(self.file_dict['Datasets']):
-            if ("constant" in dataset['DataType'] and
-                    self.ignore_constant):
-                pop_dataset.append(ids)
-        for pop_id in pop_dataset:
-            self.file_dict['Datasets'].pop(pop_id)
+
+        if self.ignore_constant:
+            self.file_dict['Datasets'] = self._drop_constants()
             # if isinstance(dataset['data'], np.ndarray):
             #     string_array = np.array2string(dataset['data'])
             #     no_brackets = re.sub(r'[\[\]]', '', string_array)
-- 
2.43.0


From 56c8feda94537da3e85e5ae92673d4ee360588ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:47 +0000
Subject: [PATCH 48/65] fix: rebuilding a list of modules with a disabled one
 raises ValueError

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 6680efa..5926170 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -144,7 +144,7 @@ class Catalogue(object):
                 if not dframe.empty:
                     dframes.append(dframe)
             else:
-                if rebuild == module:
+                if rebuild != 'All' and module in rebuild:
                     raise ValueError("Tried to rebuild module" +
                                      "{}".format(rebuild) +
                                      ", however this module is disabled" +
-- 
2.43.0


From b5c436224402aac068cdbcaa77540f9c1113d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:59 +0000
Subject: [PATCH 49/65] fix: the default configuration has the user's directory
 as path whatever its name

---
 src/dispersion/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 6c5d2b0..b0ddc3d 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -59,7 +59,7 @@ def default_config():
         the tree of configuration data
     """
     yaml_str = """\
-    Path: {}
+    Path: ''
     File: catalogue.csv
     Interactive: false #for jupyter interfactive editing
     WarnMissingPackages: False # raise warnings if non-essential packages are missing
@@ -70,8 +70,9 @@ def default_config():
       Value: 632.8
       SpectrumType: wavelength
       Unit: nanometer
-    """.format(_get_user_config_dir())
+    """
     config = read_yaml_string(yaml_str)
+    config['Path'] = _get_user_config_dir()
     return config
 
 def _get_user_config_dir():
-- 
2.43.0


From aa44055759ac7e15c16e6afd4893713014024d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:23 +0000
Subject: [PATCH 50/65] fix: comparing materials whose metadata have different
 entries raised KeyError or depended on the order

---
 src/dispersion/material.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index ae12745..6ba0760 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -146,10 +146,8 @@ class Material():
         if not isinstance(other, Material):
             return False
 
-        for meta_data_key, meta_data_value in self.meta_data.items():
-            meta_data_value_other = other.meta_data[meta_data_key]
-            if not meta_data_value == meta_data_value_other:
-                return False
+        if not self.meta_data == other.meta_data:
+            return False
 
         if not self.data['name'] == other.data['name']:
             return False
-- 
2.43.0


From 3e75be0db1fbc45ef07bf3115f76a329831e212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:42 +0000
Subject: [PATCH 51/65] fix: TaucLorentz returned nan for the real part at the
 gap energy

---
 src/dispersion/spectral_data.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index dde2613..8cb5882 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -48,6 +48,7 @@ for more information on models see https://refractiveindex.info/about
 import re
 import numpy as np
 from scipy.interpolate import interp1d, splrep, splev
+from scipy.special import xlogy
 from dispersion.spectrum import Spectrum
 from dispersion.io import _numeric_to_string_table
 
@@ -688,12 +689,13 @@ class TaucLorentz(Model):
                     np.arctan2(alpha-2*Eg,C))
         part3 = part3_1 * part3_2 * part3_3
 
-        part4 = ((-A*E0*C/(np.pi*zeta4))*
-                 ((E**2+Eg**2)/E) *
-                 np.log( np.abs(E-Eg)/(E+Eg)))
+        # log|E-Eg| is collected in one term, which vanishes at E == Eg
+        part4 = ((A*E0*C/(np.pi*zeta4))*
+                 (((E**2+Eg**2)/E) * np.log(E+Eg) -
+                  xlogy((E-Eg)**2/E, np.abs(E-Eg))))
 
         part5 = ((2.*A*E0*C*Eg/(np.pi*zeta4)) *
-                 np.log( (np.abs(E-Eg)*(E+Eg))/
+                 np.log( (E+Eg)/
                          np.sqrt((E0**2-Eg**2)**2+Eg**2*C**2)))
 
         eps_real = eps_inf + part1 + part2 + part3 + part4 +part5
-- 
2.43.0


From d8d45a6ebb1146a13a78a104a3a43d1e1da9b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:17 +0000
Subject: [PATCH 52/65] fix: a nan among the requested spectral values switched
 off the range check of the others

---
 src/dispersion/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 48beca1..bf3df4e 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -224,8 +224,8 @@ class Spectrum(object):
         completely contained within the range of the values defined
         in this Spectrum object"""
         other_values = other.convert_to(self.spectrum_type, self.unit)
-        other_min = np.min(other_values)
-        other_max = np.max(other_values)
+        other_min = np.nanmin(other_values)
+        other_max = np.nanmax(other_values)
         self_min = np.min(self.values)
         self_max = np.max(self.values)
         out_of_range = None
-- 
2.43.0


From a05540b66955615e8a8e8c468510eaf656f74295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:45 +0000
Subject: [PATCH 53/65] fix: conversion to metre returned the spectrum's
 internal array

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index bf3df4e..811c977 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -102,7 +102,7 @@ def wavelength_to_standard(unit, values):
 def to_wavelength(unit, values):
     """converts values from standard to wavelength representation"""
     if unit == 'm':
-        converted_values = values
+        converted_values = values*1.0 # the caller gets a copy
     elif unit == 'cm':
         converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
-- 
2.43.0


From daa5b0845f9e2acf5d6a91e316ee466f28ca5a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:06 +0000
Subject: [PATCH 54/65] fix: bounds of refractiveindex.info pages with their
 own unit were not in micrometre

---
 src/dispersion/catalogue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 5926170..a80dd34 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -353,7 +353,11 @@ class Catalogue(object):
                                 "Module":"RefractiveIndexInfo"}
                 content_dict['SpectrumType'] = 'wavelength'
                 content_dict['Unit'] = 'micrometer'
-                valid_range = mat.get_maximum_valid_range()
+                valid_range = Spectrum(mat.get_maximum_valid_range(),
+                                       mat.defaults['spectrum_type'],
+                                       mat.defaults['unit'])
+                valid_range = np.sort(valid_range.convert_to('wavelength',
+                                                             'micrometer'))
                 content_dict['SpectrumLowerBound'] = valid_range[0]
                 content_dict['SpectrumUpperBound'] = valid_range[1]
                 content_dict['Reference'] = mat.meta_data['Reference']
-- 
2.43.0


From 1c4f21a58a6b244455ced829bc580a47024d108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:00 +0000
Subject: [PATCH 55/65] fix: writing yaml dropped specification entries outside
 the known list

---
 src/dispersion/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 4b2dac0..bec6e90 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -760,6 +760,9 @@ class Writer():
                 for key, val in specs.items():
                     if spec_key == key:
                         yaml_spec[spec_key] = val
+            for key, val in specs.items():
+                if key not in spec_order:
+                    yaml_spec[key] = val
             yaml_dict['SPECS'] = yaml_spec
 
         write_yaml_file(self.file_path, yaml_dict)
-- 
2.43.0


From ea8050b99d27729009445ca668693db370790a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:00 +0000
Subject: [PATCH 56/65] fix: writing an extrapolated material raised
 AttributeError instead of ValueError

---
 src/dispersion/spectral_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 8cb5882..cd9a0a0 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -205,6 +205,12 @@ class Extrapolation(SpectralData):
                     base_spectrum)
             return evaluation
 
+    def dict_repr(self):
+        """
+        extrapolated data has no representation in a file
+        """
+        raise ValueError("extrapolated data cannot be written to file")
+
 
 class Interpolation(SpectralData):
     """for spectral data values that are from tabulated data"""
-- 
2.43.0


From cec70f56efded3e504183a6670152b3d2b856281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:57 +0000
Subject: [PATCH 57/65] fix: rows after a blank line in a yaml table were
 dropped

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index bec6e90..ea4dfcb 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -83,7 +83,7 @@ def _str_table_to_numeric(table):
         numeric_table = []
         for row in table.split('\n'):
             if row.isspace() or row == "":
-                break
+                continue
             numeric_col = []
             for col in row.split():
                 numeric_col.append(float(col))
-- 
2.43.0


From e95faaa78f0d07cd122ab4860d7a3b5714acf470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:57 +0000
Subject: [PATCH 58/65] fix: a broken yaml file was read as empty or from its
 middle instead of raising

---
 src/dispersion/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index ea4dfcb..0cd5532 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -149,6 +149,7 @@ def read_yaml_file(file_path):
             try:
                 yaml_data = yaml.load(fpt, Loader=yaml.FullLoader)
             except:
+                fpt.seek(0)
                 yaml_data = yaml.safe_load(fpt)
     return yaml_data
 
-- 
2.43.0


From b82984efd5a184666d9d2de8f0f68bb7ea8f1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:56 +0000
Subject: [PATCH 59/65] fix: a spectrum kept the caller's array and changed
 with it

---
 src/dispersion/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 811c977..84f85a2 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -185,8 +185,8 @@ class Spectrum(object):
                              "not valid, valid types are " +
                              "{}".format(spectral_types))
         self.unit = self.standardise_unit(self.spectrum_type, unit.lower())
-        if isinstance(values, (list, tuple)):
-            values = np.array(values)
+        if isinstance(values, (list, tuple, np.ndarray)):
+            values = np.array(values) # a copy, the caller may reuse its array
         if not ( isinstance(values, np.ndarray) or
                  isinstance(values, float)):
             raise ValueError("values must be array like or float")
-- 
2.43.0


From a870f1d795d2c11014f3f7b817f40ca7e66d3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:35 +0000
Subject: [PATCH 60/65] fix: a model kept the caller's parameter array and
 changed with it

---
 src/dispersion/spectral_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index cd9a0a0..d10422f 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -46,6 +46,7 @@ Notes
 for more information on models see https://refractiveindex.info/about
 """
 import re
+from copy import copy
 import numpy as np
 from scipy.interpolate import interp1d, splrep, splev
 from scipy.special import xlogy
@@ -257,7 +258,7 @@ class Model(SpectralData):
 
     def __init__(self, model_parameters, valid_range, spectrum_type='wavelength',
                  unit='m'):
-        self.model_parameters = model_parameters
+        self.model_parameters = copy(model_parameters) # the caller may reuse it
         super(Model, self).__init__(valid_range,
                                     spectrum_type=spectrum_type,
                                     unit=unit)
-- 
2.43.0


From 95656884399dca3ff0d408cf5f70bc2bc372cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:08 +0000
Subject: [PATCH 61/65] fix: a top-level key not in capitals made a yaml file
 unreadable

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 0cd5532..3a53ab0 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -455,8 +455,8 @@ class Reader():
             the updated file_dict
         """
         for kwd in yaml_dict:
-            kwd = kwd.upper()
             arg = yaml_dict[kwd]
+            kwd = kwd.upper()
             valid = False
             if kwd == 'DATA':
                 valid = True
-- 
2.43.0


From 326bbaf3d926c4504f0be57af4cdb7bb293022fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:08 +0000
Subject: [PATCH 62/65] fix: further metadata entries were written to yaml with
 another entry's value

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 3a53ab0..2e58879 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -716,8 +716,8 @@ class Writer():
 
         yaml_dict = {}
         for key in self.file_dict['MetaData']:
+            md = self.file_dict['MetaData'][key]
             if key in Writer.KEY_ALIASES:
-                md = self.file_dict['MetaData'][key]
                 yaml_dict[Writer.KEY_ALIASES[key]] = md
             else:
                 yaml_dict[key] = md
-- 
2.43.0


From e9f829abd209f3a392a5fe2aae4f36e3dc4d25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:21 +0000
Subject: [PATCH 63/65] fix: a Writer can write its file more than once

---
 src/dispersion/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 2e58879..e4605f8 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -606,7 +606,7 @@ class Writer():
         """
         self.ignore_constant = ignore_constant
         self.use_rii_aliases = use_rii_aliases
-        meta_comment = self.file_dict['MetaData'].pop('MetaComment')
+        meta_comment = self.file_dict['MetaData']['MetaComment']
         #raise NotImplementedError("writing material files not yet implemented")
         txt_types = {'.txt', '.csv', '.nk'}
         if self.extension in txt_types:
@@ -716,6 +716,8 @@ class Writer():
 
         yaml_dict = {}
         for key in self.file_dict['MetaData']:
+            if key == 'MetaComment': # written as comment lines
+                continue
             md = self.file_dict['MetaData'][key]
             if key in Writer.KEY_ALIASES:
                 yaml_dict[Writer.KEY_ALIASES[key]] = md
-- 
2.43.0


From 2d3b8ba0b223be52258586e6b8fb8ac216d7a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:15 +0000
Subject: [PATCH 64/65] fix: header lines of text files end at line ends only

codecs.open also splits lines at form feeds, NEL and the unicode line and
paragraph separators. A header with such a character in its text lost the
rest of that line and all following lines, UNIT and DATATYPE included.
---
 src/dispersion/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index e4605f8..0c9a0d7 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -33,7 +33,6 @@ Writer
 """
 import os
 import sys
-import codecs
 import re
 import tempfile
 from collections import OrderedDict
@@ -361,7 +360,7 @@ class Reader():
         returns text from contiguous lines in file beginning with #.
         '''
         comment = []
-        with codecs.open(self.file_path, 'r', 'utf-8') as fpt:
+        with open(self.file_path, 'r', encoding='utf-8') as fpt:
             for line in fpt:
                 if line[0] == "#" or line[0] == ';':
                     comment.append(line[1:].rstrip("\n\r"))
-- 
2.43.0


From 5e3cdd1b0cea0702621f92d48d98afe68bb67646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:45 +0000
Subject: [PATCH 65/65] fix: a catalogue with an empty bound could not be read

A bound cleared in the table (interactively or with set_database) is
saved as an empty field like the reference values, but only the latter
were read back as missing; for the bounds reading the file raised.
---
 src/dispersion/catalogue.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index a80dd34..367a93d 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -89,7 +89,9 @@ class Catalogue(object):
                  'Path':str,
                  'Module':str}
     NA_VALUES = {'N_Reference':[""],
-                 'K_Reference':[""]}
+                 'K_Reference':[""],
+                 'SpectrumLowerBound':[""],
+                 'SpectrumUpperBound':[""]}
 
 
     def __init__(self, config=None, rebuild="None"):
-- 
2.43.0

