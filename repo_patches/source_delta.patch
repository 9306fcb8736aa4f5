From 729406a1f9808bda8d80b1d5053c59b4c963de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:19 +0000
Subject: [PATCH 01/27] fix: keep the halo-model matter spectrum from sharing a
 cache slot with power_spectrum_mm

hmf stores the cached quantities 'x' and '_x' under the same hidden
attribute, so '_power_spectrum_mm' and 'power_spectrum_mm' overwrote each
other. In response mode the result of either depended on which spectrum had
been read last. Rename the private quantity.
---
 src/onepower/pk.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4258218..503ffc4 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -1541,7 +1541,7 @@ class Spectra(HaloModelIngredients):
         return PowerSpectrumResult(pk_tot=self._pk_lin[np.newaxis, :, :])
 
     @cached_quantity
-    def _power_spectrum_mm(
+    def _halo_model_mm(
         self,
     ):
         """
@@ -1650,7 +1650,7 @@ class Spectra(HaloModelIngredients):
                 pk_tot=pk_tot,
                 galaxy_linear_bias=None,
             )
-        return self._power_spectrum_mm
+        return self._halo_model_mm
 
     # --------------------------------  Galaxy spectra specific funtions ------------------------------
 
@@ -1966,9 +1966,9 @@ class Spectra(HaloModelIngredients):
         )
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h,
@@ -2059,9 +2059,9 @@ class Spectra(HaloModelIngredients):
         )
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h,
@@ -2432,9 +2432,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_sm_1h + pk_cm_2h + pk_sm_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
@@ -2555,9 +2555,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_ss_1h + pk_cc_2h + pk_ss_2h + pk_cs_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
@@ -2653,9 +2653,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_cs_1h + pk_cs_2h + pk_cc_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
-- 
2.43.0


From 11f4e4c7942f0a3a71934c9c7a8c7a18a243963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:19 +0000
Subject: [PATCH 02/27] fix: recompute omega_m when the cosmology is updated

functools.cached_property is not invalidated by update(), so omega_m kept the
value of the first cosmology it was read for.
---
 src/onepower/hmi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 37ff859..e9769db 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -9,7 +9,6 @@ import numpy as np
 import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
-from functools import cached_property
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
 from scipy.integrate import quad, simpson, solve_ivp
@@ -247,7 +246,7 @@ class CosmologyBase(Framework):
             wa=self.wa,
         )
 
-    @cached_property
+    @cached_quantity
     def omega_m(self):
         """Matter density parameter."""
         return self.cosmo_model.Om0
-- 
2.43.0


From 3a3ea8886eca76d33c2914fef44e0d5798b6019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:00 +0000
Subject: [PATCH 03/27] fix: re-index dependencies of cached quantities after
 every update

Quantities that read different parameters depending on a mode, an option or a
None value kept the dependencies recorded for the first configuration, so
later updates left them stale; changing a switch together with a parameter
could raise a KeyError. Drop what an update invalidates so that it is indexed
afresh.
---
 src/onepower/add.py             |  2 +-
 src/onepower/bnl.py             |  3 ++-
 src/onepower/hmi.py             |  3 ++-
 src/onepower/ia.py              |  3 ++-
 src/onepower/utils/framework.py | 25 +++++++++++++++++++++++++
 5 files changed, 32 insertions(+), 4 deletions(-)
 create mode 100644 src/onepower/utils/framework.py

diff --git a/src/onepower/add.py b/src/onepower/add.py
index b0ab2e2..a1c925b 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -3,9 +3,9 @@ from functools import cached_property
 from scipy.interpolate import interp1d
 
 from hmf._internals._cache import parameter
-from hmf._internals._framework import Framework
 
 from .pk import PowerSpectrumResult, Spectra
+from .utils.framework import Framework
 
 
 class UpsampledSpectra(Framework):
diff --git a/src/onepower/bnl.py b/src/onepower/bnl.py
index 4ed7af3..5a1b9b4 100644
--- a/src/onepower/bnl.py
+++ b/src/onepower/bnl.py
@@ -10,7 +10,8 @@ from collections import OrderedDict
 from scipy.interpolate import RegularGridInterpolator, interp1d
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
+
+from .utils.framework import Framework
 
 try:
     from dark_emulator import darkemu
diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index e9769db..c41ab66 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -16,9 +16,10 @@ from scipy.interpolate import interp1d
 from scipy.optimize import root_scalar
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
 from hmf.halos.mass_definitions import SphericalOverdensity
 
+from .utils.framework import Framework
+
 # Silencing a warning from hmf for which the nonlinear mass is still correctly calculated
 warnings.filterwarnings('ignore', message='Nonlinear mass outside mass range')
 
diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 0d41683..25a29fe 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -13,7 +13,8 @@ from scipy.interpolate import RegularGridInterpolator, interp1d
 from scipy.special import binom, gamma
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
+
+from .utils.framework import Framework
 
 
 class AlignmentAmplitudes(Framework):
diff --git a/src/onepower/utils/framework.py b/src/onepower/utils/framework.py
new file mode 100644
index 0000000..1a172f1
--- /dev/null
+++ b/src/onepower/utils/framework.py
@@ -0,0 +1,25 @@
+from hmf._internals._cache import hidden_loc
+from hmf._internals._framework import Framework as _Framework
+
+
+class Framework(_Framework):
+    """
+    The hmf framework with dependencies that are re-indexed after every update.
+
+    hmf records which parameters a cached quantity depends on the first time it is
+    calculated, and does not revise the record unless a "switch" changes. Many
+    quantities in this package read different parameters depending on the values of
+    others, so anything invalidated by an update is dropped here instead of only being
+    flagged, and is indexed afresh the next time it is calculated.
+    """
+
+    def update(self, **kwargs):
+        """Update parameters of the framework with kwargs."""
+        try:
+            super().update(**kwargs)
+        finally:
+            recalc = getattr(self, hidden_loc(self, 'recalc'))
+            recalc_prpa = getattr(self, hidden_loc(self, 'recalc_prop_par'))
+            for name in [n for n, stale in recalc.items() if stale]:
+                del recalc[name]
+                recalc_prpa.pop(name, None)
-- 
2.43.0


From 0d071b4a6be8bdc5a3df9dfa903174897849d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 04/27] fix: do not let the per-redshift halo models modify the
 shared mass definition

The halo model merges updates into the dictionaries it was given, so the loop
over the centrals overwrote the overdensity of the first redshift with that of
the last one. Satellites at the first redshift (and centrals after an update)
were computed for the wrong overdensity with the HMCode ingredients.
---
 src/onepower/hmi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index c41ab66..ac3fcf0 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -1111,7 +1111,7 @@ class HaloModelIngredients(CosmologyBase):
             disable_mass_conversion=self.disable_mass_conversion,
             bias_model=self._bias_mod,
             halo_profile_model=self.halo_profile_model_dm,
-            halo_profile_params=self.halo_profile_params,
+            halo_profile_params=dict(self.halo_profile_params),
             halo_concentration_model=self._halo_concentration_mod_dm,
             cosmo_model=self.cosmo_model,
             sigma_8=self.sigma_8,
@@ -1120,7 +1120,7 @@ class HaloModelIngredients(CosmologyBase):
             transfer_params=self.transfer_params,
             growth_model=self.growth_model,
             growth_params=self.growth_params,
-            mdef_params=self.mdef_params[0],
+            mdef_params=dict(self.mdef_params[0]),
             delta_c=self._delta_c_mod[0],
         )
         y = x.clone()
-- 
2.43.0


From adcebbb92f3e8dcb7f7a44a09083e30beb8dd047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 05/27] fix: make beta_two a tracked parameter of the alignment
 amplitudes

It was a plain attribute, so updating it left the cached amplitudes stale.
---
 src/onepower/ia.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 25a29fe..8827708 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -169,6 +169,15 @@ class AlignmentAmplitudes(Framework):
         """
         return val
 
+    @parameter('param')
+    def beta_two(self, val):
+        """
+        Secondary beta parameter for central galaxies.
+
+        :type: float
+        """
+        return val
+
     @parameter('param')
     def beta_sat(self, val):
         """
-- 
2.43.0


From ae3675212cb7f6b2325c950926e6764e47f88bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 06/27] fix: recompute fractions and models of UpsampledSpectra
 after an update

functools.cached_property is not invalidated by update().
---
 src/onepower/add.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index a1c925b..04cf2c6 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -1,8 +1,7 @@
 import numpy as np
-from functools import cached_property
 from scipy.interpolate import interp1d
 
-from hmf._internals._cache import parameter
+from hmf._internals._cache import cached_quantity, parameter
 
 from .pk import PowerSpectrumResult, Spectra
 from .utils.framework import Framework
@@ -126,7 +125,7 @@ class UpsampledSpectra(Framework):
         """
         return val
 
-    @cached_property
+    @cached_quantity
     def frac_1(self):
         """
         Calculate the fraction for the first model.
@@ -151,7 +150,7 @@ class UpsampledSpectra(Framework):
         )
         return f(self.z)
 
-    @cached_property
+    @cached_quantity
     def frac_2(self):
         """
         Calculate the fraction for the second model.
@@ -165,7 +164,7 @@ class UpsampledSpectra(Framework):
             return np.zeros_like(self.z)
         return 1.0 - self.frac_1
 
-    @cached_property
+    @cached_quantity
     def power_1(self):
         """
         First Halo Model.
@@ -179,7 +178,7 @@ class UpsampledSpectra(Framework):
             return Spectra(**self._model_1_params)
         return self.model
 
-    @cached_property
+    @cached_quantity
     def power_2(self):
         """
         Second Halo Model.
-- 
2.43.0


From 7876ba9eb2c101aee8e610d599fd5274ccffd007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 07/27] fix: do not modify the dictionaries passed in by the
 caller

Parameter dictionaries were stored by reference, and update() and the
alignment setup merge values into the stored object: the changes leaked into
the caller's dictionaries and into other models built from them.
---
 src/onepower/hmi.py |  4 ++--
 src/onepower/pk.py  | 33 ++++++++++++++++-----------------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index ac3fcf0..8388b8e 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -778,7 +778,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return val
+        return dict(val) if val is not None else val
 
     @parameter('param')
     def growth_model(self, val):
@@ -796,7 +796,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return val
+        return dict(val) if val is not None else val
 
     @parameter('param')
     def norm_cen(self, val):
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 503ffc4..791d6e3 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -308,7 +308,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if val is not None else val
 
     @parameter('param')
     def pointmass(self, val):
@@ -335,7 +335,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if val is not None else val
 
     @parameter('param')
     def hod_params(self, val):
@@ -344,7 +344,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if val is not None else val
 
     @parameter('param')
     def hod_settings(self, val):
@@ -353,7 +353,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if val is not None else val
 
     @parameter('param')
     def obs_settings(self, val):
@@ -362,7 +362,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if val is not None else val
 
     @parameter('param')
     def t_eff(self, val):
@@ -398,7 +398,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return dict(val) if val is not None else val
 
     @parameter('model')
     def hod_model(self, val):
@@ -2082,17 +2082,16 @@ class Spectra(HaloModelIngredients):
         object
             The SatelliteAligment class
         """
-        self.align_params.update(
-            {
-                'z_vec': self.z_vec,
-                'mass_in': self.mass,
-                'c_in': self.conc_cen,
-                'r_s_in': self.r_s_cen,
-                'rvir_in': self.rvir_cen[0],
-                'method': 'fftlog',
-            }
-        )
-        return SatelliteAlignment(**self.align_params)
+        align_params = {
+            **self.align_params,
+            'z_vec': self.z_vec,
+            'mass_in': self.mass,
+            'c_in': self.conc_cen,
+            'r_s_in': self.r_s_cen,
+            'rvir_in': self.rvir_cen[0],
+            'method': 'fftlog',
+        }
+        return SatelliteAlignment(**align_params)
 
     @cached_quantity
     def beta_cen(self):
-- 
2.43.0


From 891902273646b7b3295ef11e19c206a393fd548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:31 +0000
Subject: [PATCH 08/27] fix: use the virial radius of each redshift for the
 satellite alignment profile

Only the radii at the first redshift were passed on, which is wrong for mass
definitions whose radius depends on redshift (virial, critical, HMCode).
---
 src/onepower/ia.py | 6 ++++--
 src/onepower/pk.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 8827708..c5fdb83 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -966,6 +966,8 @@ class SatelliteAlignment(AlignmentAmplitudes):
             * self.r_s**3.0
             * (np.log(1.0 + self.c) - self.c / (1.0 + self.c))
         )
+        # The virial radius is given either for each redshift or once for all of them
+        rvir = np.broadcast_to(self.rvir, (self.z_vec.size, self.mass.size))
         uk_l = np.zeros(
             [self.ell_values.size, self.z_vec.size, self.mass.size, self.k_vec.size]
         )
@@ -978,7 +980,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
                             self.gamma_r_nfw_profile(
                                 x,
                                 self.r_s[jz, im],
-                                self.rvir[im],
+                                rvir[jz, im],
                                 self.gamma_1h_amp[jz],
                                 self.gamma_1h_slope,
                                 truncate=self.truncate,
@@ -1004,7 +1006,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
                     self.gamma_r_nfw_profile(
                         r[np.newaxis, np.newaxis, :],
                         self.r_s[:, :, np.newaxis],
-                        self.rvir[np.newaxis, :, np.newaxis],
+                        rvir[:, :, np.newaxis],
                         self.gamma_1h_amp[:, np.newaxis, np.newaxis],
                         self.gamma_1h_slope,
                         truncate=self.truncate,
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 791d6e3..4750184 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2088,7 +2088,7 @@ class Spectra(HaloModelIngredients):
             'mass_in': self.mass,
             'c_in': self.conc_cen,
             'r_s_in': self.r_s_cen,
-            'rvir_in': self.rvir_cen[0],
+            'rvir_in': self.rvir_cen,
             'method': 'fftlog',
         }
         return SatelliteAlignment(**align_params)
-- 
2.43.0


From 55b003990623a5e1de24b511008f371753591084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:31 +0000
Subject: [PATCH 09/27] fix: refuse to dewiggle on a k grid that is not evenly
 spaced in log k

The guard compared a boolean and never fired as intended; the smoothing and
the velocity dispersion assume a constant log spacing.
---
 src/onepower/pk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4750184..487775d 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2719,10 +2719,10 @@ class Spectra(HaloModelIngredients):
         ndarray
             The wiggle component of the power spectrum.
         """
-        if not np.isclose(np.all(np.diff(k) - np.diff(k)[0]), 0.0):
-            raise ValueError('Dewiggle only works with linearly-spaced k array')
-
         dlnk = np.log(k[1] / k[0])
+        if not np.allclose(np.diff(np.log(k)), dlnk, rtol=1e-3):
+            raise ValueError('Dewiggle only works with log-spaced k array')
+
         sigma = sigma_dlnk / dlnk
 
         Pk_nowiggle = (k**ns) * np.exp(self.Tk_EH_nowiggle_lnt(np.log(k))) ** 2.0
-- 
2.43.0


From 72c367dc9f43ba488833fa22c7d0fc6b4da82194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:09 +0000
Subject: [PATCH 10/27] fix: let the CosmoSIS module read the galaxy samples
 from an observables file

---
 cosmosis_modules/onepower_interface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 40cc26f..bafc2ca 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -316,7 +316,11 @@ def setup_hod(options, galaxy, alignment, split_ia):
     if galaxy:
         hod_settings = setup_hod_settings(options, 'hod')
         hod_settings_mm = setup_hod_settings_mm(hod_settings)
-        nbins = len(hod_settings['obs_min'])
+        nbins = (
+            1
+            if hod_settings['observables_file'] is not None
+            else len(hod_settings['obs_min'])
+        )
     else:
         hod_settings = {}
         hod_settings_mm = {}
-- 
2.43.0


From 8f9e0dd2d9a13b1f0b982360d7c645d52851d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:09 +0000
Subject: [PATCH 11/27] fix: apply the alignment dependence of the CosmoSIS
 module to the right galaxies

---
 cosmosis_modules/onepower_interface.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index bafc2ca..b2bfdc5 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -909,8 +909,11 @@ def execute(block, config):
     # TO-DO: for aligments at least we need to split the calculation in red/blue and add here!
 
     if alignment:
-        align_params = {}
-        if central_IA == 'halo_mass':
+        align_params = {
+            'central_ia_depends_on': central_IA,
+            'satellite_ia_depends_on': satellite_IA,
+        }
+        if satellite_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_sat': block[
@@ -928,7 +931,7 @@ def execute(block, config):
                     'mpivot_sat': None,
                 }
             )
-        if satellite_IA == 'halo_mass':
+        if central_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_cen': block[
@@ -978,7 +981,7 @@ def execute(block, config):
         )
         if split_ia:
             align_params_2 = align_params.copy()
-            if central_IA == 'halo_mass':
+            if satellite_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_sat': block[
@@ -996,7 +999,7 @@ def execute(block, config):
                         'mpivot_sat': None,
                     }
                 )
-            if satellite_IA == 'halo_mass':
+            if central_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_cen': block[
-- 
2.43.0


From 2309fe7acb3720fc149d5249712739c5626fab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:09 +0000
Subject: [PATCH 12/27] fix: evaluate the Hankel transforms at the separations
 they belong to

---
 cosmosis_modules/pk_to_real/pk_to_real.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmosis_modules/pk_to_real/pk_to_real.py b/cosmosis_modules/pk_to_real/pk_to_real.py
index 5f3f228..855e75a 100644
--- a/cosmosis_modules/pk_to_real/pk_to_real.py
+++ b/cosmosis_modules/pk_to_real/pk_to_real.py
@@ -111,7 +111,7 @@ class Transformer:
         self.upper = upper
 
         # work out the effective rp values.
-        nc = 0.5 * (n + 1)
+        nc = 0.5 * (n - 1)
         log_kmin = np.log(k_min)
         log_kmax = np.log(k_max)
         log_kmid = 0.5 * (log_kmin + log_kmax)
-- 
2.43.0


From 6dc2242ab065dc20122087781bbe435d63dfea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:22 +0000
Subject: [PATCH 13/27] fix: keep the FFTLog bias of the satellite alignment
 transform above the large-radius slope

For shallow radial slopes (for example the special case 0 with the default
ell_max=6) the biased profile grew with radius and aliasing dominated the
kernel at high k.
---
 src/onepower/ia.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index c5fdb83..d103281 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -995,6 +995,10 @@ class SatelliteAlignment(AlignmentAmplitudes):
                 mu = ell + 0.5
                 # Precision settings that seem to be working fine
                 bias = -0.5 * (i + 2.0)
+                if not self.truncate:
+                    # The biased profile has to fall off at large radii also for shallow slopes,
+                    # otherwise the periodic FFTLog transform is dominated by aliasing.
+                    bias = max(bias, self.gamma_1h_slope - 1.0)
                 low_r = -8
                 high_r = 8
                 r = np.logspace(low_r, high_r, 512)
-- 
2.43.0


From 819a0cad6ee2e9db35e1c9f48dc5ada465747c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:41 +0000
Subject: [PATCH 14/27] fix: galaxy statistics are NaN with a single output or
 sample redshift

interp1d cannot interpolate a table with a single redshift and returns NaN
when it extrapolates; hold the only tabulated value instead.
---
 src/onepower/hod.py | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/onepower/hod.py b/src/onepower/hod.py
index b86c683..22ddd97 100644
--- a/src/onepower/hod.py
+++ b/src/onepower/hod.py
@@ -44,6 +44,32 @@ def load_data(file_name):
     return z_data, obs_min, obs_max
 
 
+def hold_single_redshift(z, data, axis=0):
+    """
+    Prepare tabulated data for the interpolation in redshift.
+
+    With a single tabulated redshift there is nothing to interpolate between
+    (interp1d would return NaN), so its value is tabulated twice and held.
+
+    Parameters:
+    -----------
+    z : array_like
+        Tabulated redshifts.
+    data : array_like
+        Tabulated data.
+    axis : int, optional
+        Redshift axis of the data.
+
+    Returns:
+    --------
+    tuple
+        Redshifts and data to interpolate.
+    """
+    if np.size(z) > 1:
+        return z, data
+    return np.array([z[0], np.nextafter(z[0], np.inf)]), np.repeat(data, 2, axis=axis)
+
+
 @pluggable
 class HaloOccupationDistribution(Component):
     r"""
@@ -127,8 +153,7 @@ class HaloOccupationDistribution(Component):
         if np.array_equal(self.z, self.z_vec):
             return self.dndlnm
         dndlnm_fnc = interp1d(
-            self.z_vec,
-            self.dndlnm,
+            *hold_single_redshift(self.z_vec, self.dndlnm),
             kind='linear',
             fill_value='extrapolate',
             bounds_error=False,
@@ -149,8 +174,7 @@ class HaloOccupationDistribution(Component):
         if np.array_equal(self.z, self.z_vec):
             return self.halo_bias
         halo_bias_fnc = interp1d(
-            self.z_vec,
-            self.halo_bias,
+            *hold_single_redshift(self.z_vec, self.halo_bias),
             kind='linear',
             fill_value='extrapolate',
             bounds_error=False,
@@ -340,7 +364,10 @@ class HaloOccupationDistribution(Component):
         """
         n_int = [
             interp1d(
-                self.z[i], data[i], fill_value=fill_value, bounds_error=False, axis=axis
+                *hold_single_redshift(self.z[i], data[i], axis),
+                fill_value=fill_value,
+                bounds_error=False,
+                axis=axis,
             )
             for i in range(self.z.shape[0])
         ]
-- 
2.43.0


From e23a00e84f1a582fc3c53bda42f4e3a057383386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:10 +0000
Subject: [PATCH 15/27] fix: upsampled spectra of a single-redshift model are
 NaN

interp1d cannot interpolate a single tabulated redshift (or a single
redshift of the red/blue fraction); hold the only value.
---
 src/onepower/add.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index 04cf2c6..a22f695 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -3,6 +3,7 @@ from scipy.interpolate import interp1d
 
 from hmf._internals._cache import cached_quantity, parameter
 
+from .hod import hold_single_redshift
 from .pk import PowerSpectrumResult, Spectra
 from .utils.framework import Framework
 
@@ -141,8 +142,7 @@ class UpsampledSpectra(Framework):
         if self.fraction is None:
             return np.ones_like(self.z)
         f = interp1d(
-            self.fraction_z,
-            self.fraction,
+            *hold_single_redshift(self.fraction_z, self.fraction),
             kind='linear',
             fill_value='extrapolate',
             bounds_error=False,
@@ -271,8 +271,7 @@ class UpsampledSpectra(Framework):
             Extrapolated power spectra.
         """
         inter_func_z = interp1d(
-            z_in,
-            power,
+            *hold_single_redshift(z_in, power, axis=1),
             kind='linear',
             fill_value=extrapolate_option,
             bounds_error=False,
-- 
2.43.0


From 66d5daa71ba62ac9a6b6e5dfc23302539c1ee243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:50 +0000
Subject: [PATCH 16/27] fix: spectra of a sample without satellites or centrals
 are NaN

A bin whose satellite (or central) number density is zero divided zero by
zero in the profile normalisation. Such a population contributes nothing.
---
 src/onepower/pk.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 487775d..c1032bf 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -57,6 +57,25 @@ from . import hod
 NONLINEAR_MODES = ['bnl', 'hmcode', 'fortuna', None]
 
 
+def normalisation(number_density):
+    """
+    Number density to normalise the occupation of a galaxy population with.
+
+    The occupation of a population without galaxies is zero and is left as it is.
+
+    Parameters:
+    -----------
+    number_density : array_like
+        Number density of the population.
+
+    Returns:
+    --------
+    ndarray
+        Number density, or one where there are no galaxies.
+    """
+    return np.where(number_density == 0.0, 1.0, number_density)
+
+
 class PowerSpectrumResult:
     """
     A helper class to attach the power spectrum outputs as atributes
@@ -1806,7 +1825,7 @@ class Spectra(HaloModelIngredients):
             self.hod.f_c[:, :, np.newaxis, np.newaxis]
             * self.hod.hod_cen[:, :, np.newaxis, :]
             * np.ones_like(self.u_sat[np.newaxis, :, :, :])
-            / self.hod.number_density_cen[:, :, np.newaxis, np.newaxis]
+            / normalisation(self.hod.number_density_cen)[:, :, np.newaxis, np.newaxis]
         )
 
     @cached_quantity
@@ -1823,7 +1842,7 @@ class Spectra(HaloModelIngredients):
             self.hod.f_s[:, :, np.newaxis, np.newaxis]
             * self.hod.hod_sat[:, :, np.newaxis, :]
             * self.u_sat[np.newaxis, :, :, :]
-            / self.hod.number_density_sat[:, :, np.newaxis, np.newaxis]
+            / normalisation(self.hod.number_density_sat)[:, :, np.newaxis, np.newaxis]
         )
 
     def compute_Ig_term(self, profile, mass, dndlnm, b_m):
@@ -2286,7 +2305,7 @@ class Spectra(HaloModelIngredients):
         """
         profile = self.compute_satellite_galaxy_alignment_profile(
             self.hod.hod_sat[:, :, np.newaxis, :],
-            self.hod.number_density_sat[:, :, np.newaxis, np.newaxis],
+            normalisation(self.hod.number_density_sat)[:, :, np.newaxis, np.newaxis],
             self.hod.f_s[:, :, np.newaxis, np.newaxis],
             self.wkm_sat,
             self.beta_sat,
-- 
2.43.0


From b9625d76d5907777b65f54662d96c8333a1374cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:04 +0000
Subject: [PATCH 17/27] fix: Zheng satellites below M0 when alpha is zero

The step at M0 was raised to the power alpha as well, so alpha=0 put one
satellite in every halo below M0.
---
 src/onepower/hod.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/onepower/hod.py b/src/onepower/hod.py
index 22ddd97..2b44fc0 100644
--- a/src/onepower/hod.py
+++ b/src/onepower/hod.py
@@ -1453,8 +1453,9 @@ class Zheng(HaloOccupationDistribution):
         Compute the HOD for satellite galaxies.
         """
         N_sat = (
-            np.heaviside(self.mass - self.M0, 1.0) * (self.mass - self.M0) / self.M1
-        ) ** self.alpha
+            np.heaviside(self.mass - self.M0, 1.0)
+            * (np.clip(self.mass - self.M0, 0.0, None) / self.M1) ** self.alpha
+        )
         if self.params['A_sat'] is not None:
             delta_pop_s = self.params['A_sat'] * N_sat
             N_sat = N_sat + delta_pop_s
-- 
2.43.0


From e8357e46c08f20bebb9772a6a6adaa365353fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:58 +0000
Subject: [PATCH 18/27] fix: downsample all halo quantities of the satellite
 alignment alike

The last halo mass was added for each quantity only if its value differed
from the previous one, so concentrations that are flat at high mass ended up
shorter than the masses.
---
 src/onepower/ia.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index d103281..15c097a 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -675,14 +675,16 @@ class SatelliteAlignment(AlignmentAmplitudes):
             )
 
         downsample_factor = self.mass_in.size // self.nmass
+        # Whether the last halo mass has to be added is the same for all quantities
+        add_last = (self.mass_in.size - 1) % downsample_factor != 0
 
         if isinstance(quantity, np.ndarray) and quantity.ndim == 1:
             downsampled_quantity = quantity[::downsample_factor]
-            if downsampled_quantity[-1] != quantity[-1]:
+            if add_last:
                 downsampled_quantity = np.append(downsampled_quantity, quantity[-1])
         else:
             downsampled_quantity = quantity[:, ::downsample_factor]
-            if np.all(downsampled_quantity[:, -1] != quantity[:, -1]):
+            if add_last:
                 downsampled_quantity = np.concatenate(
                     (downsampled_quantity, np.atleast_2d(quantity[:, -1]).T), axis=1
                 )
-- 
2.43.0


From 4363c9d9f7ed4ddf4d3ab10392bb8313fb132a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:58 +0000
Subject: [PATCH 19/27] fix: upsampled Hankel alignment kernel of a zero
 amplitude is NaN

---
 src/onepower/ia.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 15c097a..f0ba041 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -1066,6 +1066,10 @@ class SatelliteAlignment(AlignmentAmplitudes):
         if self.method == 'hankel':
             wkm_out = np.empty([self.z_vec.size, mass_out.size, k_vec_out.size])
             for jz in range(self.z_vec.size):
+                # No alignment: there is no logarithm to interpolate
+                if not np.any(wkm_in[jz]):
+                    wkm_out[jz] = 0.0
+                    continue
                 # Create the interpolator
                 lg_w_interp2d = RegularGridInterpolator(
                     (np.log10(self.k_vec).T, np.log10(self.mass).T),
-- 
2.43.0


From 4692fc83d7026f9e01ea7a2c975eef4b61c7ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:33 +0000
Subject: [PATCH 20/27] fix: hmcode transition smoothing underflows to zero at
 high redshift

---
 src/onepower/pk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index c1032bf..bd35615 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -1046,7 +1046,10 @@ class Spectra(HaloModelIngredients):
         alpha = 1.875 * (1.603 ** neff[np.newaxis, :, np.newaxis])
         Delta_1h = delta_prefac * p_1h
         Delta_2h = delta_prefac * p_2h
-        Delta_hmcode = (Delta_1h**alpha + Delta_2h**alpha) ** (1.0 / alpha)
+        # Scaled by the larger term, as a large power of a small term underflows to zero.
+        larger = np.maximum(Delta_1h, Delta_2h)
+        ratio = np.minimum(Delta_1h, Delta_2h) / np.where(larger == 0.0, 1.0, larger)
+        Delta_hmcode = larger * (1.0 + ratio**alpha) ** (1.0 / alpha)
         return Delta_hmcode / delta_prefac
 
     def compute_1h_term(self, profile_u, profile_v, mass, dndlnm):
-- 
2.43.0


From 7fa7e7078539e314d0f721d9c23bba5e3bd2e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:01 +0000
Subject: [PATCH 21/27] fix: default gas pivot mass is 10^13.87, not 13.87,
 Msun/h

---
 src/onepower/pk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index bd35615..4fa70a8 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -171,7 +171,7 @@ class Spectra(HaloModelIngredients):
         compute_observable=False,
         matter_power_lin=None,
         matter_power_nl=None,
-        mb=13.87,
+        mb=10.0**13.87,
         beta_nl=None,
         one_halo_ktrunc=0.1,
         two_halo_ktrunc=2.0,
-- 
2.43.0


From 486d15eeb2cea2e7722c24928462fc2abeb9c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:01 +0000
Subject: [PATCH 22/27] fix: HOD parameters of alignment-only runs with per-bin
 HOD models in the CosmoSIS module

---
 cosmosis_modules/onepower_interface.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index b2bfdc5..dd6e341 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -336,6 +336,15 @@ def setup_hod(options, galaxy, alignment, split_ia):
     else:
         hod_settings_ia_1 = {}
         hod_settings_ia_2 = {}
+
+    if alignment and not galaxy:
+        # The HOD parameters are those of the alignment sample
+        nbins = (
+            1
+            if hod_settings_ia_1['observables_file'] is not None
+            else len(hod_settings_ia_1['obs_min'])
+        )
+
     if options.get_bool(option_section, 'save_observable', default=False):
         obs_settings = setup_hod_settings(options, 'smf')
         obs_settings['save_observable'] = options.get_bool(
-- 
2.43.0


From 584ee0521ff8c288677798947c3f3fe592df336f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:07:49 +0000
Subject: [PATCH 23/27] fix: colossus concentrations are evaluated in the
 cosmology of their own model

---
 src/onepower/hmi.py | 46 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 8388b8e..5f2364f 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -9,6 +9,7 @@ import numpy as np
 import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
+from colossus.cosmology.cosmology import fromAstropy
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
 from scipy.integrate import quad, simpson, solve_ivp
@@ -58,6 +59,47 @@ class SOVirial_Mead(SphericalOverdensity):
         return 'SOVirial'
 
 
+def _colossus_concentration(model):
+    """
+    Concentration-mass relation from colossus, evaluated in the cosmology of its own halo model.
+
+    Colossus has a single global cosmology, which make_colossus_cm only sets when the relation
+    is created. Here it is set for every evaluation, as another halo model might have been
+    set up with a different cosmology in the meantime.
+
+    Parameters:
+    -----------
+    model : str
+        Name of the colossus concentration model.
+
+    Returns:
+    --------
+    object
+        halo_concentration class
+    """
+    base = make_colossus_cm(model)
+
+    class ColossusConcentration(base):
+        _defaults = base._defaults
+        native_mdefs = base.native_mdefs
+
+        def cm(self, m, z=0):
+            with warnings.catch_warnings():
+                warnings.filterwarnings(
+                    'ignore', 'Astropy cosmology class contains massive neutrinos'
+                )
+                fromAstropy(
+                    self.cosmo.cosmo,
+                    sigma8=self.sigma_8,
+                    ns=self.ns,
+                    cosmo_name='',
+                    persistence='',
+                )
+            return super().cm(m, z)
+
+    return ColossusConcentration
+
+
 class CosmologyBase(Framework):
     """
     A cosmology base class.
@@ -988,7 +1030,7 @@ class HaloModelIngredients(CosmologyBase):
                 )
             except AttributeError:
                 val = interp_concentration(
-                    make_colossus_cm(self.halo_concentration_model_dm)
+                    _colossus_concentration(self.halo_concentration_model_dm)
                 )
         return val
 
@@ -1011,7 +1053,7 @@ class HaloModelIngredients(CosmologyBase):
                 )
             except AttributeError:
                 val = interp_concentration(
-                    make_colossus_cm(self.halo_concentration_model_sat)
+                    _colossus_concentration(self.halo_concentration_model_sat)
                 )
         return val
 
-- 
2.43.0


From 7ac38b7e339c5577be23f7bdafc80ab0b371470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 24/27] fix: average halo mass of centrals is normalised by the
 number of centrals

---
 src/onepower/pk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4fa70a8..7309443 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -1711,14 +1711,14 @@ class Spectra(HaloModelIngredients):
     @cached_quantity
     def mass_avg(self):
         """
-        Compute the average mass.
+        Compute the average mass of the haloes hosting the central galaxies.
 
         Returns:
         --------
         ndarray
             The average mass.
         """
-        return self.hod.avg_halo_mass_cen / self.hod.number_density
+        return self.hod.avg_halo_mass_cen / self.hod.number_density_cen
 
     @cached_quantity
     def obs(self):
-- 
2.43.0


From 2bfb22783d86fc050d7aca025b9d39317cda1189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:19 +0000
Subject: [PATCH 25/27] fix: alignment amplitudes scale with halo mass only
 when that dependence is chosen

---
 src/onepower/pk.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 7309443..82cb455 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2280,13 +2280,16 @@ class Spectra(HaloModelIngredients):
         ndarray
             The central alignment profile.
         """
+        # The amplitude scales with the halo mass only when that dependence is chosen
+        mass_scaling = self.alignment_class.central_ia_depends_on == 'halo_mass'
+        mpivot = self.mpivot_cen if mass_scaling else None
         profile = self.compute_central_galaxy_alignment_profile(
             self.growth_factor[np.newaxis, :, np.newaxis, np.newaxis],
             self.hod.f_c[:, :, np.newaxis, np.newaxis],
             self.C1[np.newaxis, :, :, :],
             self.mass[np.newaxis, np.newaxis, np.newaxis, :],
             self.beta_cen,
-            self.mpivot_cen,
+            mpivot,
             self.mass_avg[:, :, np.newaxis, np.newaxis],
         )
         return profile
@@ -2306,13 +2309,16 @@ class Spectra(HaloModelIngredients):
         ndarray
             The satellite alignment profile.
         """
+        # The amplitude scales with the halo mass only when that dependence is chosen
+        mass_scaling = self.alignment_class.satellite_ia_depends_on == 'halo_mass'
+        mpivot = self.mpivot_sat if mass_scaling else None
         profile = self.compute_satellite_galaxy_alignment_profile(
             self.hod.hod_sat[:, :, np.newaxis, :],
             normalisation(self.hod.number_density_sat)[:, :, np.newaxis, np.newaxis],
             self.hod.f_s[:, :, np.newaxis, np.newaxis],
             self.wkm_sat,
             self.beta_sat,
-            self.mpivot_sat,
+            mpivot,
             self.mass_avg[:, :, np.newaxis, np.newaxis],
         )
         return profile
-- 
2.43.0


From 0614f2167570f79e7dc13bbabff5c53d3c8cab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 26/27] fix: luminosity sample of each redshift on unevenly
 spaced redshift grids

---
 src/onepower/ia.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index f0ba041..fddb6b6 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -369,8 +369,10 @@ class AlignmentAmplitudes(Framework):
         loglum_gal = np.array(galfile['loglum'])
 
         z_bins = self.z_vec
-        dz = 0.5 * (z_bins[1] - z_bins[0])
-        z_edges = np.append(z_bins - dz, z_bins[-1] + dz)
+        dz = 0.5 * np.diff(z_bins)
+        z_edges = np.concatenate(
+            ([z_bins[0] - dz[0]], z_bins[:-1] + dz, [z_bins[-1] + dz[-1]])
+        )
 
         bincen = np.zeros([self.z_vec.size, nlbins])
         pdf = np.zeros([self.z_vec.size, nlbins])
-- 
2.43.0


From 304f777951dc33c1297c4bc7e639864a45fd7514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 27/27] fix: mass scaling of alignment is NaN outside the
 galaxy sample for negative slopes

---
 src/onepower/pk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 82cb455..248bb4f 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2224,7 +2224,8 @@ class Spectra(HaloModelIngredients):
             The central galaxy alignment profile.
         """
         if beta is not None and mpivot is not None and mass_avg is not None:
-            additional_term = (mass_avg / mpivot) ** beta
+            # Redshifts outside the galaxy sample have no galaxies, and no mean mass
+            additional_term = np.where(mass_avg > 0.0, mass_avg / mpivot, 1.0) ** beta
         else:
             additional_term = 1.0
         return (
@@ -2260,7 +2261,8 @@ class Spectra(HaloModelIngredients):
             The satellite galaxy alignment profile.
         """
         if beta is not None and mpivot is not None and mass_avg is not None:
-            additional_term = (mass_avg / mpivot) ** beta
+            # Redshifts outside the galaxy sample have no galaxies, and no mean mass
+            additional_term = np.where(mass_avg > 0.0, mass_avg / mpivot, 1.0) ** beta
         else:
             additional_term = 1.0
         return f_s * Nsat * wkm_sat / numdenssat * additional_term
-- 
2.43.0

