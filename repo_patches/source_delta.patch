From 8be11ffed3b0eb2196a71d6fb0abac2f1dfccde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 01/41] fix: memoize hands out copies of the cached result

In-place modification of a returned flux changed the result of later calls.
---
 src/naima/model_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index 634b875..57f5930 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
+import copy
 import hashlib
 import warnings
 
@@ -58,7 +59,7 @@ def memoize(func):
             digest = hashlib.sha256(token.encode()).hexdigest()
 
             if digest in cache:
-                return cache[digest]
+                return copy.copy(cache[digest])
 
         result = func(cls, energy, *args, **kwargs)
 
@@ -69,7 +70,7 @@ def memoize(func):
                 cache.pop(key, None)
             # save last result to cache
             queue.append(digest)
-            cache[digest] = result
+            cache[digest] = copy.copy(result)
 
         return result
 
-- 
2.43.0


From 914395f13d613e9d585201e5ba0549954b230e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 02/41] fix: memoize builds an unambiguous cache key

The key joined the printed arguments and parameters without separators, so
that alpha=1, beta=10.2 and alpha=11, beta=0.2 shared an entry, stored a
default distance as distance=0, and dropped digits, shape and elements of
array arguments.
---
 src/naima/model_utils.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index 57f5930..c66fbe7 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -8,6 +8,21 @@ import numpy as np
 from astropy import units as u
 
 
+def _token(value):
+    """Unambiguous string representation of a value to be used in a cache key"""
+    if isinstance(value, np.ndarray):
+        # str would drop digits and, for long arrays, elements
+        unit = str(getattr(value, "unit", ""))
+        data = np.asarray(value)
+        return repr((unit, str(data.dtype), data.shape, data.tobytes()))
+    elif isinstance(value, dict):
+        return repr([(_token(k), _token(v)) for k, v in value.items()])
+    elif isinstance(value, (list, tuple)):
+        return repr([_token(v) for v in value])
+    else:
+        return repr((type(value).__name__, repr(value)))
+
+
 def memoize(func):
     """Cache decorator for functions inside model classes"""
 
@@ -32,20 +47,12 @@ def memoize(func):
             except (TypeError, ValueError, IndexError):
                 pass
 
-            try:
-                # tostring is 10 times faster than str(array).encode()
-                bstr = energy.value.tobytes()
-            except AttributeError:
-                # scalar Quantity
-                bstr = str(energy.value).encode()
-
-            data = [hashlib.sha256(bstr).hexdigest()]
+            data = [_token(energy)]
 
-            data.append(energy.unit.to_string())
-            data.append(str(kwargs.get("distance", 0)))
+            # an argument left at its default is not the same as one set to 0
+            data.append(_token(args))
+            data.append(_token(kwargs))
 
-            if args:
-                data.append(str(args))
             if hasattr(cls, "particle_distribution"):
                 models = [cls, cls.particle_distribution]
             else:
@@ -53,9 +60,10 @@ def memoize(func):
             for model in models:
                 if hasattr(model, "param_names"):
                     for par in model.param_names:
-                        data.append(str(getattr(model, par)))
+                        data.append(_token(getattr(model, par)))
 
-            token = "".join(data)
+            # the repr keeps the boundaries between consecutive values
+            token = repr(data)
             digest = hashlib.sha256(token.encode()).hexdigest()
 
             if digest in cache:
-- 
2.43.0


From c388d7c6173fd14c0cb7aea2e6dce3739eb97d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 03/41] fix: do not reuse a cached spectrum for a different
 particle distribution

The class of the particle distribution was not part of the cache key, and
neither was any of the state of a TableModel or of a plain function.
---
 src/naima/model_utils.py | 6 ++++++
 src/naima/models.py      | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index c66fbe7..f678d2f 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -34,6 +34,11 @@ def memoize(func):
         except AttributeError:
             memoize = False
 
+        if memoize and hasattr(cls, "particle_distribution"):
+            # without param_names (e.g., a function) the state of the particle
+            # distribution is unknown and results cannot be reused safely
+            memoize = hasattr(cls.particle_distribution, "param_names")
+
         if memoize:
             # Allow for dicts or tables with energy column, Quantity array or
             # Quantity scalar
@@ -58,6 +63,7 @@ def memoize(func):
             else:
                 models = [cls]
             for model in models:
+                data.append(_token(type(model)))
                 if hasattr(model, "param_names"):
                     for par in model.param_names:
                         data.append(_token(getattr(model, par)))
diff --git a/src/naima/models.py b/src/naima/models.py
index aed3e17..5e531b7 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -442,6 +442,8 @@ class TableModel:
         1.
     """
 
+    param_names = ["_energy", "_values", "amplitude"]
+
     def __init__(self, energy, values, amplitude=1):
         from scipy.interpolate import interp1d
 
-- 
2.43.0


From 95c5a7e150b1e17ce30ea53b51069fdcee703546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 04/41] fix: InverseCompton.flux(seed=...) computes the
 requested seed

The contribution was read from the last computation of the instance, which is
the one for other energies or parameters when the total flux was cached. A
seed number equal to the number of seeds gave IndexError.
---
 src/naima/radiative.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 3db562e..5b0cda7 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -738,13 +738,15 @@ class InverseCompton(BaseElectron):
                         " the definition of the InverseCompton instance"
                     )
                 else:
-                    seed = list(self.seed_photon_fields.keys()).index(seed)
-            elif seed > len(self.seed_photon_fields):
+                    name = seed
+            elif not 0 <= seed < len(self.seed_photon_fields):
                 raise ValueError(
                     "Provided seed photon field number is larger"
                     " than the number of seed photon fields defined in the"
                     " InverseCompton instance"
                 )
+            else:
+                name = list(self.seed_photon_fields.keys())[seed]
 
             if distance != 0:
                 distance = validate_scalar("distance", distance, physical_type="length")
@@ -754,7 +756,9 @@ class InverseCompton(BaseElectron):
                 dfac = 1
                 out_unit = "1/(s eV)"
 
-            model = (self.specic[seed] / dfac).to(out_unit)
+            # self.specic may correspond to a previous call
+            specic = self._calc_specic(name, _validate_ene(photon_energy))
+            model = (specic / dfac).to(out_unit)
 
         return model
 
-- 
2.43.0


From 4f533a5dd5475025bd3a3b211ef6ea6c7cece1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 05/41] fix: set_We and set_Wp do not modify the caller's
 amplitude in place

The Quantity passed as amplitude, and every model built from it, was rescaled.
---
 src/naima/radiative.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 5b0cda7..b422266 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -220,7 +220,11 @@ class BaseElectron(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (We / oldWe).decompose()
+                oldampl = self.particle_distribution.amplitude
+                # not in place: oldampl can be shared with other objects
+                self.particle_distribution.amplitude = (
+                    oldampl * (We / oldWe).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
@@ -1084,7 +1088,11 @@ class BaseProton(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (Wp / oldWp).decompose()
+                oldampl = self.particle_distribution.amplitude
+                # not in place: oldampl can be shared with other objects
+                self.particle_distribution.amplitude = (
+                    oldampl * (Wp / oldWp).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
-- 
2.43.0


From cafc4d2ef1a50bfce7213a139ddf4a9ca1d94072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 06/41] fix: Bremsstrahlung with a zero weight

The emissivity of the disabled component was returned in energy units.
---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index b422266..e1b2db6 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -950,7 +950,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-electron bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ee == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * u.Unit(u.cm**3 / u.s / Eph.unit)
 
         gam = np.vstack(self._gam)
         # compute integral with electron distribution
@@ -966,7 +966,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-proton bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ep == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * u.Unit(u.cm**3 / u.s / Eph.unit)
 
         gam = np.vstack(self._gam)
         eps = (Eph / mec2).decompose().value
-- 
2.43.0


From c37bcf149247705a816e0950f685fd5099a3766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 07/41] fix: NaN Bremsstrahlung flux at a photon energy of half
 of mec2

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index e1b2db6..cadad65 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -876,7 +876,7 @@ class Bremsstrahlung(BaseElectron):
         s2_3 = -2 + 2 / eps - 5 / (8 * eps**2)
         s2 = s2_1 * (s2_2 + s2_3)
 
-        return s0 * np.where(eps <= 0.5, s1, s2) * heaviside(gam - eps)
+        return s0 * np.where(eps < 0.5, s1, s2) * heaviside(gam - eps)
 
     def _sigma_ee_rel(self, gam, eps):
         """
-- 
2.43.0


From d3d6816da486f0e2186d5f4cc0f1aa108c52682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 08/41] fix: use the confidence level of each violated upper
 limit

The cl column was indexed with the number of violated upper limits: IndexError
when all points are violated upper limits, and the cl of another point for data
with several confidence levels.
---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index c397c6a..ff75678 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -88,8 +88,8 @@ def lnprobmodel(model, data):
 
     if np.sum(ul) > 0:
         # deal with upper limits at CL set by data['cl']
-        violated_uls = np.sum(model[ul] > data["flux"][ul])
-        totallogprob += violated_uls * np.log(1.0 - data["cl"][violated_uls])
+        violated_uls = model[ul] > data["flux"][ul]
+        totallogprob += np.sum(np.log(1.0 - data["cl"][ul][violated_uls]))
 
     return totallogprob
 
-- 
2.43.0


From b059f42e0273d371d02ad8ba43f8cac0cde9e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 09/41] fix: normal_prior is the logarithm of a normal
 distribution

---
 src/naima/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index ff75678..6599683 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -41,7 +41,7 @@ def uniform_prior(value, umin, umax):
 
 def normal_prior(value, mean, sigma):
     """Normal prior distribution."""
-    return -0.5 * (2 * np.pi * sigma) - (value - mean) ** 2 / (2.0 * sigma)
+    return -0.5 * np.log(2 * np.pi * sigma**2) - (value - mean) ** 2 / (2.0 * sigma**2)
 
 
 def log_uniform_prior(value, umin=0, umax=None):
-- 
2.43.0


From 0a02a3faf5c376d90ee91d54eb6c2068b63aa7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 10/41] fix: log_uniform_prior returns a log-probability

It returned the density 1/value instead of its logarithm.
---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 6599683..4449bf3 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -49,11 +49,11 @@ def log_uniform_prior(value, umin=0, umax=None):
     if value > 0 and value >= umin:
         if umax is not None:
             if value <= umax:
-                return 1 / value
+                return -np.log(value)
             else:
                 return -np.inf
         else:
-            return 1 / value
+            return -np.log(value)
     else:
         return -np.inf
 
-- 
2.43.0


From 84d996e3f6445182ae803df9c6015ef2a43dcae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 11/41] fix: sed_conversion of differential number densities

They were accepted, but the unit returned was the one of a luminosity.
---
 src/naima/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index e12bbf1..c76c9ec 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -226,6 +226,7 @@ def sed_conversion(energy, model_unit, sed):
         u.get_physical_type("power"),
         u.get_physical_type("energy"),
         u.get_physical_type("energy flux"),
+        u.get_physical_type("energy density"),
     }
     is_differential = model_pt in {
         u.get_physical_type("differential flux"),
@@ -257,12 +258,18 @@ def sed_conversion(energy, model_unit, sed):
         u.get_physical_type("energy flux"),
         u.get_physical_type("differential flux"),
     }
+    is_density = model_pt in {
+        u.get_physical_type("energy density"),
+        u.get_physical_type("differential number density"),
+    }
 
     if sed:
         if is_energy_flux:
             f_unit = u.erg
         elif is_particle_flux:
             f_unit = u.erg / u.s / u.cm**2
+        elif is_density:
+            f_unit = u.erg / u.cm**3
         else:
             f_unit = u.erg / u.s
     else:
@@ -270,6 +277,8 @@ def sed_conversion(energy, model_unit, sed):
             f_unit = u.Unit("1/TeV")
         elif is_particle_flux:
             f_unit = u.Unit("1/(s TeV cm2)")
+        elif is_density:
+            f_unit = u.Unit("1/(TeV cm3)")
         else:
             f_unit = u.Unit("1/(s TeV)")
 
-- 
2.43.0


From bbe8613959f737bcfc0359899fda1313d439bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 12/41] fix: energy edges of energies that are not in ascending
 order

They were negative, and tables are only sorted after the edges are computed.
---
 src/naima/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index c76c9ec..7346952 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -366,13 +366,16 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
 
 def _generate_energy_edges_single(ene):
     """Generate energy edges for single group"""
+    order = np.argsort(ene)
+    ene = ene[order]
     midene = np.sqrt((ene[1:] * ene[:-1]))
     elo, ehi = np.zeros(len(ene)) * ene.unit, np.zeros(len(ene)) * ene.unit
     elo[1:] = ene[1:] - midene
     ehi[:-1] = midene - ene[:-1]
     elo[0] = ene[0] * (1 - ene[0] / (ene[0] + ehi[0]))
     ehi[-1] = elo[-1]
-    return u.Quantity([elo, ehi])
+    # back to the order of the input
+    return u.Quantity([elo, ehi])[:, np.argsort(order)]
 
 
 def generate_energy_edges(ene, groups=None):
-- 
2.43.0


From d36c885a6d35d292bdce6eb9da8f9fc13c1c9a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 13/41] fix: EBL transmission above 100 TeV

It was 0.02 at any redshift: more than at 100 TeV by tens of orders of magnitude,
and absorption without a source redshift.
---
 src/naima/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/models.py b/src/naima/models.py
index 5e531b7..3ff0e2a 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -548,7 +548,8 @@ class EblAbsorptionModel(TableModel):
             if e[i].to("GeV").value < 1.0:
                 taus[i] = 0.0
             elif e[i].to("TeV").value > 100.0:
-                taus[i] = np.log10(6000.0)
+                # opacity at the highest energy of the table
+                taus[i] = np.log10(self(self._energy[-1]))
             else:
                 taus[i] = np.log10(self(e[i]))
         return np.exp(-taus)
-- 
2.43.0


From ae5e2543aa45d8e2109fa197635e9d81d8e3a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 14/41] fix: get_sampler does not modify the p0 and labels of
 the caller

The normalization guess was applied in place, so that a second call started from
other parameters (and was truncated for integer arrays).
---
 src/naima/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/naima/core.py b/src/naima/core.py
index 4449bf3..25e1b42 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -341,7 +341,13 @@ def get_sampler(
     if model is None:
         raise TypeError("Model function is missing!")
 
+    # do not modify the arguments of the caller
+    p0 = np.array(p0, dtype=float)
+
     # Add parameter labels if not provided or too short
+    if labels is not None:
+        labels = list(labels)
+
     if labels is None:
         # First is normalization
         labels = ["norm"] + ["par{0}".format(i) for i in range(1, len(p0))]
-- 
2.43.0


From 11ee188b33797476ab1b2c4ce4d8c5072362b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 15/41] fix: read_run returns all the blobs written by save_run

A blob that could not be saved hid all the blobs after it, and of the blobs that
are tuples of arrays only those with exactly two arrays were read correctly.
---
 src/naima/analysis.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 70d500b..0268f8e 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -440,7 +440,7 @@ def save_run(filename, sampler, compression=True, clobber=False):
             blobdataset = group.create_dataset(
                 "blob{0}".format(idx), data=blob, compression=compression
             )
-            if len(units) > 1:
+            if isinstance(item, (tuple, list)):
                 for j, unit in enumerate(units):
                     blobdataset.attrs["unit{0}".format(j)] = unit
             else:
@@ -536,24 +536,21 @@ def read_run(filename, modelfn=None):
     result_blobs = []
     nsteps, nwalkers, nblobs = result.chain.shape
     blobs = []
-    blobrank = []
-    for i in range(100):
+    saved = [int(key[4:]) for key in f["mcmc"] if key.startswith("blob")]
+    for i in range(max(saved, default=-1) + 1):
+        if i not in saved:
+            # blob with unknown format, keep the position of the rest
+            blobs.append(np.full(nsteps * nwalkers, np.nan))
+            continue
         # first read each of the blobs and convert to Quantities
-        try:
-            ds = f["mcmc/blob{0}".format(i)]
-            rank = np.ndim(ds[0])
-            blobrank.append(rank)
-            if rank <= 1:
-                blobs.append(u.Quantity(ds[()], unit=ds.attrs["unit"]))
-            else:
-                blob = []
-                for j in range(np.ndim(ds[0])):
-                    blob.append(
-                        u.Quantity(ds[:, j, :], unit=ds.attrs["unit{0}".format(j)])
-                    )
-                blobs.append(blob)
-        except KeyError:
-            break
+        ds = f["mcmc/blob{0}".format(i)]
+        if "unit" in ds.attrs:
+            blobs.append(u.Quantity(ds[()], unit=ds.attrs["unit"]))
+        else:
+            blob = []
+            for j in range(ds.shape[1]):
+                blob.append(u.Quantity(ds[:, j], unit=ds.attrs["unit{0}".format(j)]))
+            blobs.append(blob)
 
     # Now organize in an awful list of lists of arrays
     for step in range(nsteps):
@@ -562,11 +559,11 @@ def read_run(filename, modelfn=None):
             n = step * nwalkers + walker
             walkerblob = []
             for j in range(len(blobs)):
-                if blobrank[j] <= 1:
+                if not isinstance(blobs[j], list):
                     walkerblob.append(blobs[j][n])
                 else:
                     blob = []
-                    for k in range(blobrank[j]):
+                    for k in range(len(blobs[j])):
                         blob.append(blobs[j][k][n])
                     walkerblob.append(blob)
             steplist.append(walkerblob)
-- 
2.43.0


From e7a08b4373fb1f2c9e4bfedccae920712ad8848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 16/41] fix: save_results_table(last_step=True) uses the last
 step

The chain of emcee 3 has shape (steps, walkers, pars): the results were those of
the whole chain of the last walker.
---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 0268f8e..6e16a2c 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -239,7 +239,7 @@ def save_results_table(
     labels = sampler.labels
 
     if last_step:
-        dists = sampler.get_chain()[:, -1, :]
+        dists = sampler.get_chain()[-1]
     else:
         dists = sampler.get_chain(flat=True)
 
-- 
2.43.0


From 586b959ef5751fe4ba996606b30d0e5098776d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 17/41] fix: no NaN in Bremsstrahlung at the energy of an
 electron

The logarithm of Eq. A2 diverges where the photon takes all the energy of
the electron, so that a photon energy equal to one of the sampled electron
energies (for example Eemin) gave NaN.
---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index cadad65..fcf8ef4 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -853,7 +853,7 @@ class Bremsstrahlung(BaseElectron):
         s1 = 4 * r0**2 * alpha / eps / mec2_unit
         s2 = 1 + (1.0 / 3.0 - eps / gam) * (1 - eps / gam)
         s3 = np.log(2 * gam * (gam - eps) / eps) - 1.0 / 2.0
-        s3[np.where(gam < eps)] = 0.0
+        s3[np.where(gam <= eps)] = 0.0
         return s1 * s2 * s3
 
     @staticmethod
-- 
2.43.0


From e7a59dd5ce2f79ec65c011b5821221ffaf42205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 18/41] fix: no NaN from protons below the threshold in
 PionDecay

With Epmin below the threshold (and no lookup table) the cross section was
not defined for part of the protons and the whole spectrum came out as NaN.
---
 src/naima/radiative.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index fcf8ef4..92928e5 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1462,6 +1462,9 @@ class PionDecay(BaseProton):
         if self.nuclear_enhancement:
             diffsigma *= self._nuclear_factor(Tp)
 
+        # protons below the threshold do not emit (Amax is not defined there)
+        diffsigma[np.where(Tp <= self._Tth)] = 0.0
+
         return diffsigma
 
     def _nuclear_factor(self, Tp):
-- 
2.43.0


From 55533a6112ed5885540814ce3c668f195e5ac10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 19/41] fix: PionDecayKelner06 normalizes its low energies also
 without high energies

The factor that joins the delta approximation to the full calculation at
Etrans was only computed if the energies were on both sides of Etrans, so the
flux at an energy depended on the other energies of the array.
---
 src/naima/radiative.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 92928e5..aa2fc79 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1762,12 +1762,13 @@ class PionDecayKelner06(BaseRadiative):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             self.nhat = 1.0  # initial value, works for index~2.1
-            if np.any(outspecene < self.Etrans) and np.any(outspecene >= self.Etrans):
+            if np.any(outspecene < self.Etrans):
                 # compute value of nhat so that delta functional matches
                 # accurate calculation at 0.1TeV
                 full = self._calc_specpp_hiE(self.Etrans)
                 delta = self._calc_specpp_loE(self.Etrans)
-                self.nhat *= (full / delta).decompose().value
+                if delta != 0:
+                    self.nhat *= (full / delta).decompose().value
 
             self.specpp = np.zeros(len(outspecene)) * u.Unit("1/(s TeV)")
 
-- 
2.43.0


From f2e02f851a26a5b506ef01a03b901ebeb6f31cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 20/41] fix: estimate_B gave a number for the ratio of a flux
 and a luminosity

---
 src/naima/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 7346952..64bed3f 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -547,8 +547,8 @@ def estimate_B(xray_table, vhe_table, photon_energy_density=0.261 * u.eV / u.cm*
 
     uph = (photon_energy_density.to("erg/cm3")).value
 
-    B0 = (np.sqrt((xray_lum / vhe_lum).decompose().value * 8 * np.pi * uph) * u.G).to(
-        "uG"
-    )
+    # a flux and a luminosity have no dimensionless ratio
+    ratio = (xray_lum / vhe_lum).to("").value
+    B0 = (np.sqrt(ratio * 8 * np.pi * uph) * u.G).to("uG")
 
     return B0
-- 
2.43.0


From 1fa1c90f0361d3401a6498d17d24db6cae665d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 21/41] fix: EBL transmission above 1 where the interpolated
 opacity is negative

---
 src/naima/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/models.py b/src/naima/models.py
index 3ff0e2a..7d22c68 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -552,4 +552,5 @@ class EblAbsorptionModel(TableModel):
                 taus[i] = np.log10(self(self._energy[-1]))
             else:
                 taus[i] = np.log10(self(e[i]))
-        return np.exp(-taus)
+        # the interpolation may undershoot where there is no absorption
+        return np.exp(-np.maximum(taus, 0.0))
-- 
2.43.0


From 1a3047bad1543ea86347f1471459bd4a1234291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 22/41] fix: Nelder-Mead with integer start or undefined values
 reports the value of its point

---
 src/naima/extern/minimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/extern/minimize.py b/src/naima/extern/minimize.py
index a4ebaeb..0fb106d 100644
--- a/src/naima/extern/minimize.py
+++ b/src/naima/extern/minimize.py
@@ -77,7 +77,7 @@ def _minimize_neldermead(
     retall = return_all
 
     fcalls, func = wrap_function(func, args)
-    x0 = asarray(x0).flatten()
+    x0 = asarray(x0, dtype=float).flatten()
     N = len(x0)
     rank = len(x0.shape)
     if not -1 < rank < 2:
@@ -185,7 +185,7 @@ def _minimize_neldermead(
             allvecs.append(sim[0])
 
     x = sim[0]
-    fval = numpy.min(fsim)
+    fval = fsim[0]
     warnflag = 0
 
     if fcalls[0] >= maxfun:
-- 
2.43.0


From 0ceb16c374b196430288ff498531c5bc22eb27aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 23/41] fix: the SED of one seed photon field accepts data
 tables as energies

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index aa2fc79..6964a4b 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -793,7 +793,7 @@ class InverseCompton(BaseElectron):
 
             sed = (
                 self.flux(photon_energy, distance=distance, seed=seed)
-                * photon_energy**2.0
+                * _validate_ene(photon_energy) ** 2.0
             ).to(out_unit)
 
         return sed
-- 
2.43.0


From ee888b7b52383f2678b9aaca1051c2a1a3e43970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 24/41] fix: normalization guess of log parameters does not
 depend on the case of the label

---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 25e1b42..dac8215 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -406,9 +406,9 @@ def get_sampler(
                 data["energy"],
             )
             ratio = dataFlux / currFlux
-            if labels[idxs[0]].startswith("log("):
+            if labels[idxs[0]].lower().startswith("log("):
                 p0[idxs[0]] += np.log(ratio)
-            elif labels[idxs[0]].startswith("log10("):
+            elif labels[idxs[0]].lower().startswith("log10("):
                 p0[idxs[0]] += np.log10(ratio)
             else:
                 p0[idxs[0]] *= ratio
-- 
2.43.0


From e07a20266a03166b59614c3baae070b5f31318d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 25/41] fix: keep the units of blobs of the same length

---
 src/naima/core.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/naima/core.py b/src/naima/core.py
index dac8215..61262d6 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -94,6 +94,16 @@ def lnprobmodel(model, data):
     return totallogprob
 
 
+def _blob_length(blob):
+    """Length of a blob, or None if it does not have one"""
+    if isinstance(blob, str):
+        return None
+    try:
+        return len(blob)
+    except TypeError:
+        return None
+
+
 def lnprob(pars, data, modelfunc, priorfunc):
     if priorfunc is None:
         lnprob_priors = 0.0
@@ -106,6 +116,11 @@ def lnprob(pars, data, modelfunc, priorfunc):
     if isinstance(modelout, Iterable) and not isinstance(modelout, np.ndarray):
         model = modelout[0]
         blob = modelout
+        # Blobs of the same length would be merged into a single array without
+        # units: avoid it by adding a dummy object blob
+        lengths = [_blob_length(b) for b in blob]
+        if lengths[0] is not None and all(n == lengths[0] for n in lengths[1:]):
+            blob = (*blob, np.nan)
     else:
         model = modelout
         # Avoid squeezing of the model output in order to retain units by
-- 
2.43.0


From a605e008901f513db5c7bf8d2a5cc3008848cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 26/41] fix: keep the units of blobs of the same length in
 read_run

---
 src/naima/analysis.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 6e16a2c..0da3b01 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -533,7 +533,6 @@ def read_run(filename, modelfn=None):
     result.log_prob = np.array(f["mcmc/log_prob"])
 
     # blobs
-    result_blobs = []
     nsteps, nwalkers, nblobs = result.chain.shape
     blobs = []
     saved = [int(key[4:]) for key in f["mcmc"] if key.startswith("blob")]
@@ -552,24 +551,22 @@ def read_run(filename, modelfn=None):
                 blob.append(u.Quantity(ds[:, j], unit=ds.attrs["unit{0}".format(j)]))
             blobs.append(blob)
 
-    # Now organize in an awful list of lists of arrays
+    # Now organize in an object array, filled item by item so that arrays of the
+    # same length are not merged and keep their units
+    result_blobs = np.empty((nsteps, nwalkers, len(blobs)), dtype=object)
     for step in range(nsteps):
-        steplist = []
         for walker in range(nwalkers):
             n = step * nwalkers + walker
-            walkerblob = []
             for j in range(len(blobs)):
                 if not isinstance(blobs[j], list):
-                    walkerblob.append(blobs[j][n])
+                    result_blobs[step, walker, j] = blobs[j][n]
                 else:
                     blob = []
                     for k in range(len(blobs[j])):
                         blob.append(blobs[j][k][n])
-                    walkerblob.append(blob)
-            steplist.append(walkerblob)
-        result_blobs.append(steplist)
+                    result_blobs[step, walker, j] = blob
 
-    result._blobs = np.array(result_blobs, dtype=np.dtype("object"))
+    result._blobs = result_blobs
 
     # run info
     result.run_info = dict(f["mcmc"].attrs)
-- 
2.43.0


From a6fe966ddfcb4e319e0378410091cd4fda7983f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 27/41] fix: convert scalar blobs to a common unit in
 save_results_table

---
 src/naima/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 0da3b01..99456da 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -322,8 +322,8 @@ def save_results_table(
                     for step in blobs:
                         for walkerblob in step:
                             blobl.append(walkerblob[idx])
-                if unit:
-                    dist = np.array([b.value for b in blobl])
+                if unit is not None:
+                    dist = np.array([b.to(unit).value for b in blobl])
                     metadata["blob{0}_unit".format(idx)] = unit.to_string()
                 else:
                     dist = np.array(blobl)
-- 
2.43.0


From 583281ff2bc59306eae3013394c41c8686dc223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 28/41] fix: only convert parameters whose label starts with a
 logarithm

---
 src/naima/analysis.py | 2 +-
 src/naima/plot.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 99456da..6af1279 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -285,7 +285,7 @@ def save_results_table(
 
         t.add_row((label, med, lo, hi))
 
-        if convert_log and ("log10(" in label or "log(" in label):
+        if convert_log and label.startswith(("log10(", "log(")):
             nlabel = label.split("(")[-1].split(")")[0]
             ltype = label.split("(")[0]
             if ltype == "log10":
diff --git a/src/naima/plot.py b/src/naima/plot.py
index 72c610d..bff56be 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -241,7 +241,7 @@ def _plot_chain_func(sampler, p, last_step=False):
 
     chain_props += info_line
 
-    if "log10(" in label or "log(" in label:
+    if label.startswith(("log10(", "log(")):
         nlabel = label.split("(")[-1].split(")")[0]
         ltype = label.split("(")[0]
         if ltype == "log10":
-- 
2.43.0


From e6c7377170375dbadf90cfe3bca9884c768e0bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 29/41] fix: find_ML without blobs used a single energy of the
 model

---
 src/naima/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index bff56be..780663c 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -684,8 +684,9 @@ def find_ML(sampler, modelidx):
         else:
             raise TypeError("Model {0} has wrong blob format".format(modelidx))
     elif modelidx is not None and hasattr(sampler, "modelfn"):
+        modelout = sampler.modelfn(MLp, sampler.data)
         blob = _process_blob(
-            [sampler.modelfn(MLp, sampler.data)],
+            [[modelout] if isinstance(modelout, np.ndarray) else modelout],
             modelidx,
             energy=sampler.data["energy"],
         )
-- 
2.43.0


From 598bf9fd05680d13f704819ec16684c2bcabaaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 30/41] fix: save blobs in the units that are written next to
 them

---
 src/naima/analysis.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 6af1279..e87e5b9 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -435,7 +435,14 @@ def save_run(filename, sampler, compression=True, clobber=False):
             for step in sampler.get_blobs():
                 for walkerblob in step:
                     blob.append(walkerblob[idx])
-            blob = u.Quantity(blob).value
+            # all in the units that are saved
+            if isinstance(item, (tuple, list)):
+                blob = [
+                    [u.Quantity(x, unit).value for x, unit in zip(b, units)]
+                    for b in blob
+                ]
+            else:
+                blob = [u.Quantity(b, units[0]).value for b in blob]
 
             blobdataset = group.create_dataset(
                 "blob{0}".format(idx), data=blob, compression=compression
-- 
2.43.0


From 10ae1e7b1e782dab1e6fc1ae238b8d2dd300a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:11 +0000
Subject: [PATCH 31/41] fix: normalization guess for data that is not sorted in
 energy

---
 src/naima/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 61262d6..f44373e 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -411,14 +411,14 @@ def get_sampler(
                     idxs.append(labels.index(l2))
 
         if len(idxs) == 1:
+            # the data might not be sorted
+            order = np.argsort(data["energy"])
+            energy = data["energy"][order]
             nunit, sedf = sed_conversion(data["energy"], spec.unit, False)
-            currFlux = np.trapezoid(
-                data["energy"] * (spec * sedf).to(nunit), data["energy"]
-            )
+            currFlux = np.trapezoid(energy * (spec * sedf).to(nunit)[order], energy)
             nunit, sedf = sed_conversion(data["energy"], data["flux"].unit, False)
             dataFlux = np.trapezoid(
-                data["energy"] * (data["flux"] * sedf).to(nunit),
-                data["energy"],
+                energy * (data["flux"] * sedf).to(nunit)[order], energy
             )
             ratio = dataFlux / currFlux
             if labels[idxs[0]].lower().startswith("log("):
-- 
2.43.0


From f7f1dc0953cfbf2d3cdf7f8eab37a5402845972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:11 +0000
Subject: [PATCH 32/41] fix: refuse a model that is a flux for data that are
 luminosities, or the reverse

---
 src/naima/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index f44373e..49af899 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -383,8 +383,10 @@ def get_sampler(
     try:
         # If both can be converted to differential flux, they can be compared
         # Otherwise, sed_conversion will raise a u.UnitsError
-        sed_conversion(data["energy"], spec.unit, False)
-        sed_conversion(data["energy"], data["flux"].unit, False)
+        model_unit, _ = sed_conversion(data["energy"], spec.unit, False)
+        data_unit, _ = sed_conversion(data["energy"], data["flux"].unit, False)
+        if model_unit != data_unit:
+            raise u.UnitsError("Model and data are not comparable")
     except u.UnitsError:
         raise u.UnitsError(
             "The physical type of the model and data units are not compatible,"
-- 
2.43.0


From 59409da13e6a2d1dfb1a76e2d45b9cfe895e2984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:11 +0000
Subject: [PATCH 33/41] fix: plot_CI does not reorder the confidence levels of
 the caller

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 780663c..da5b35b 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -559,7 +559,7 @@ def plot_CI(
         Whether to only use the positions in the final step of the run (True,
         default) or the whole chain (False).
     """
-    confs.sort(reverse=True)
+    confs = sorted(confs, reverse=True)
 
     modelx, CI = _calc_CI(
         sampler,
-- 
2.43.0


From 93e0edbad6944f3289f73b08c265b68b9af02b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 34/41] fix: plot_data uses the energy units of the plot
 already in the figure

---
 src/naima/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index da5b35b..d924c59 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1270,7 +1270,9 @@ def plot_data(
 
     # try to get units from previous plot in figure
     try:
-        old_e_unit = u.Unit(ax1.get_xlabel().split("[")[-1].split("]")[0])
+        old_label = ax1.get_xlabel().split("[")[-1].split("]")[0]
+        # labels are written with the latex_inline format
+        old_e_unit = u.Unit(old_label.replace(r"$\mathrm{", "").replace("}$", ""))
     except ValueError:
         old_e_unit = u.Unit("")
 
-- 
2.43.0


From 9b067a2fdae33293068b3985d8ec380a909411dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 35/41] fix: options of one data plot do not leak into later
 plots

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index d924c59..4bf99c2 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1081,7 +1081,7 @@ def _plot_data_to_ax(
 
         if np.any(ul):
             if "elinewidth" in errorbar_opts:
-                ulim_opts["elinewidth"] = errorbar_opts["elinewidth"]
+                ulim_opts = dict(ulim_opts, elinewidth=errorbar_opts["elinewidth"])
 
             _plot_ulims(
                 ax1,
-- 
2.43.0


From d5374e1e960744337802c04b2ddf7c8f581b5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 36/41] fix: plot data when all flux errors reach zero

---
 src/naima/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 4bf99c2..efe9593 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1107,9 +1107,10 @@ def _plot_data_to_ax(
         elo = (data_all["flux"][notul] * sedf[notul]).to(f_unit).value - (
             data_all["flux_error_lo"][notul] * sedf[notul]
         ).to(f_unit).value
-        gooderr = np.where(data_all["flux_error_lo"][notul] < data_all["flux"][notul])
-        ymin = 10 ** np.floor(np.log10(np.min(elo[gooderr])))
-        ax1.set_ylim(bottom=ymin)
+        gooderr = data_all["flux_error_lo"][notul] < data_all["flux"][notul]
+        if np.any(gooderr):
+            ymin = 10 ** np.floor(np.log10(np.min(elo[gooderr])))
+            ax1.set_ylim(bottom=ymin)
 
     if ylabel is None:
         if sed:
-- 
2.43.0


From cba2e5cff0d42a592fb12421f239430e1b95b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 37/41] fix: compare the energies of data and model in the same
 units for the residuals

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index efe9593..72e8100 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1146,7 +1146,7 @@ def _plot_residuals_to_ax(
 
     interp = False
     if data_all["energy"].size != MLene.size or not np.allclose(
-        data_all["energy"].value, MLene.value
+        data_all["energy"].to(e_unit).value, MLene.value, atol=0
     ):
         interp = True
         from scipy.interpolate import interp1d
-- 
2.43.0


From c5982ab28fbdcf228ac5ddb257ef0fc185993bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 38/41] fix: the proton energy of PionDecayKelner06 scales with
 the amplitude

---
 src/naima/radiative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 6964a4b..7cef3a7 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1740,7 +1740,9 @@ class PionDecayKelner06(BaseRadiative):
 
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            Wp = quad(lambda x: x * self._particle_distribution(x), Eth, np.inf)[0]
+            Wp = quad(
+                lambda x: x * self._particle_distribution(x), Eth, np.inf, epsabs=0
+            )[0]
 
         return (Wp * u.TeV).to("erg")
 
-- 
2.43.0


From ed261e024edc589d8629008b98a291ea8ef7282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:23 +0000
Subject: [PATCH 39/41] fix: the labels given to the interactive fitter are not
 extended in place

---
 src/naima/model_fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 6f96389..e86cfdb 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -74,7 +74,9 @@ class InteractiveModelFitter:
         if labels is None:
             labels = ["par{0}".format(i) for i in range(npars)]
         elif len(labels) < npars:
-            labels += ["par{0}".format(i) for i in range(len(labels), npars)]
+            labels = list(labels) + [
+                "par{0}".format(i) for i in range(len(labels), npars)
+            ]
 
         self.hasdata = data is not None
         self.data = None
-- 
2.43.0


From 2940a66a98e51da43727baed8bae4f17006014b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:23 +0000
Subject: [PATCH 40/41] fix: the sliders of the interactive fitter start at the
 parameters given

---
 src/naima/model_fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index e86cfdb..3a1af12 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -202,6 +202,8 @@ class InteractiveModelFitter:
                 # norm without log, it will not be pretty because sliders are
                 # only linear
                 pmin, pmax = valinit / 100, valinit * 100
+            # the initial value is always within the range of the slider
+            pmin, pmax = min(pmin, pmax, valinit), max(pmin, pmax, valinit)
 
             slider = Slider(
                 parax, label, pmin, pmax, valinit=valinit, valfmt="%.4g", **slider_props
-- 
2.43.0


From 68326e8b6151004677317b02b2079faeaf12d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 41/41] fix: the list of blob labels of the caller is not
 extended by the diagnostic plots

---
 src/naima/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index e87e5b9..683e1e4 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -133,7 +133,9 @@ def save_diagnostic_plots(
     elif len(blob_labels) < len(modelidxs):
         # Add labels
         n = len(blob_labels)
-        blob_labels += ["Model output {0}".format(idx) for idx in modelidxs[n:]]
+        blob_labels = list(blob_labels) + [
+            "Model output {0}".format(idx) for idx in modelidxs[n:]
+        ]
 
     for modelidx, plot_sed, label in zip(modelidxs, sed, blob_labels):
         try:
-- 
2.43.0

