From 5de9931daf7466600c801c2ccb0469d26fa980bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 01/44] fix: make the memoization key of radiative models
 unambiguous

The key joined rounded and abbreviated strings without separators, gave a
default and a zero distance the same entry, and ignored array shapes, so
different settings could return each other's cached spectra.
---
 src/naima/model_utils.py | 47 +++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index 634b875..87dfcc9 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -7,6 +7,28 @@ import numpy as np
 from astropy import units as u
 
 
+def _exact_repr(value):
+    """Unambiguous string for a value: equal strings mean equal values.
+
+    ``str`` is not enough for arrays, which are abbreviated and printed with
+    limited precision.
+    """
+    if isinstance(value, np.ndarray) and value.dtype != object:
+        unit = getattr(value, "unit", None)
+        array = np.asarray(value)
+        content = hashlib.sha256(array.tobytes()).hexdigest()
+        # the scale of a composite unit is rounded when printed
+        scale = getattr(unit, "scale", 1.0)
+        return repr((array.dtype.str, array.shape, content, str(unit), scale))
+    elif isinstance(value, dict):
+        items = [(_exact_repr(k), _exact_repr(v)) for k, v in value.items()]
+        return "dict" + repr(items)
+    elif isinstance(value, (list, tuple)):
+        return type(value).__name__ + repr([_exact_repr(v) for v in value])
+    else:
+        return repr(value)
+
+
 def memoize(func):
     """Cache decorator for functions inside model classes"""
 
@@ -31,30 +53,25 @@ def memoize(func):
             except (TypeError, ValueError, IndexError):
                 pass
 
-            try:
-                # tostring is 10 times faster than str(array).encode()
-                bstr = energy.value.tobytes()
-            except AttributeError:
-                # scalar Quantity
-                bstr = str(energy.value).encode()
-
-            data = [hashlib.sha256(bstr).hexdigest()]
-
-            data.append(energy.unit.to_string())
-            data.append(str(kwargs.get("distance", 0)))
+            data = [
+                func.__name__,
+                _exact_repr(energy),
+                _exact_repr(args),
+                _exact_repr(kwargs),
+            ]
 
-            if args:
-                data.append(str(args))
             if hasattr(cls, "particle_distribution"):
                 models = [cls, cls.particle_distribution]
             else:
                 models = [cls]
             for model in models:
+                data.append(_exact_repr(type(model)))
                 if hasattr(model, "param_names"):
                     for par in model.param_names:
-                        data.append(str(getattr(model, par)))
+                        data.append(par)
+                        data.append(_exact_repr(getattr(model, par)))
 
-            token = "".join(data)
+            token = "\n".join(data)
             digest = hashlib.sha256(token.encode()).hexdigest()
 
             if digest in cache:
-- 
2.43.0


From b7fdcbab88ce9516e5fe48897975ac6abefd5af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 02/44] fix: do not share memoized results with the caller

Editing a returned spectrum in place changed the cached copy and with it
every later result for the same settings.
---
 src/naima/model_utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index 87dfcc9..d6d832c 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
+import copy
 import hashlib
 import warnings
 
@@ -74,8 +75,12 @@ def memoize(func):
             token = "\n".join(data)
             digest = hashlib.sha256(token.encode()).hexdigest()
 
-            if digest in cache:
-                return cache[digest]
+            # hand out copies: the cached result must not change if the caller
+            # modifies the returned array in place
+            try:
+                return copy.deepcopy(cache[digest])
+            except KeyError:
+                pass
 
         result = func(cls, energy, *args, **kwargs)
 
@@ -86,7 +91,7 @@ def memoize(func):
                 cache.pop(key, None)
             # save last result to cache
             queue.append(digest)
-            cache[digest] = result
+            cache[digest] = copy.deepcopy(result)
 
         return result
 
-- 
2.43.0


From b1bbaf859e495fab4d60d2ffa3849fb4122b6cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 03/44] fix: do not reuse memoized spectra when the particle
 distribution changed

The state of distributions without a list of parameters (functions,
TableModel) was not part of the key, so replacing the distribution or
rescaling a TableModel returned the old spectrum.
---
 src/naima/model_utils.py | 6 ++++++
 src/naima/models.py      | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index d6d832c..eae2952 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -41,6 +41,12 @@ def memoize(func):
         except AttributeError:
             memoize = False
 
+        # Results depending on a particle distribution whose parameters are not
+        # known (e.g., a plain function) cannot be identified by a key
+        pdist = getattr(cls, "particle_distribution", None)
+        if pdist is not None and not hasattr(pdist, "param_names"):
+            memoize = False
+
         if memoize:
             # Allow for dicts or tables with energy column, Quantity array or
             # Quantity scalar
diff --git a/src/naima/models.py b/src/naima/models.py
index aed3e17..5e531b7 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -442,6 +442,8 @@ class TableModel:
         1.
     """
 
+    param_names = ["_energy", "_values", "amplitude"]
+
     def __init__(self, energy, values, amplitude=1):
         from scipy.interpolate import interp1d
 
-- 
2.43.0


From 5982b6c17ca5190513d7db386d680cf35c6b8b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 04/44] fix: do not memoize a spectrum under settings it was
 not computed with

When the pion decay lookup table cannot be read, the evaluation reverts to
useLUT=False, but its result was stored as that of useLUT=True and returned
after the user enabled the lookup table again.
---
 src/naima/model_utils.py | 49 +++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index eae2952..2ad6139 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -30,6 +30,30 @@ def _exact_repr(value):
         return repr(value)
 
 
+def _digest(func, cls, energy, args, kwargs):
+    """Identify a call by its arguments and the current model parameters"""
+    data = [
+        func.__name__,
+        _exact_repr(energy),
+        _exact_repr(args),
+        _exact_repr(kwargs),
+    ]
+
+    if hasattr(cls, "particle_distribution"):
+        models = [cls, cls.particle_distribution]
+    else:
+        models = [cls]
+    for model in models:
+        data.append(_exact_repr(type(model)))
+        if hasattr(model, "param_names"):
+            for par in model.param_names:
+                data.append(par)
+                data.append(_exact_repr(getattr(model, par)))
+
+    token = "\n".join(data)
+    return hashlib.sha256(token.encode()).hexdigest()
+
+
 def memoize(func):
     """Cache decorator for functions inside model classes"""
 
@@ -60,26 +84,7 @@ def memoize(func):
             except (TypeError, ValueError, IndexError):
                 pass
 
-            data = [
-                func.__name__,
-                _exact_repr(energy),
-                _exact_repr(args),
-                _exact_repr(kwargs),
-            ]
-
-            if hasattr(cls, "particle_distribution"):
-                models = [cls, cls.particle_distribution]
-            else:
-                models = [cls]
-            for model in models:
-                data.append(_exact_repr(type(model)))
-                if hasattr(model, "param_names"):
-                    for par in model.param_names:
-                        data.append(par)
-                        data.append(_exact_repr(getattr(model, par)))
-
-            token = "\n".join(data)
-            digest = hashlib.sha256(token.encode()).hexdigest()
+            digest = _digest(func, cls, energy, args, kwargs)
 
             # hand out copies: the cached result must not change if the caller
             # modifies the returned array in place
@@ -90,7 +95,9 @@ def memoize(func):
 
         result = func(cls, energy, *args, **kwargs)
 
-        if memoize:
+        # do not cache if the evaluation changed the parameters, e.g. because it
+        # had to fall back to other settings
+        if memoize and digest == _digest(func, cls, energy, args, kwargs):
             # remove first item in queue and remove from cache
             if len(queue) > 16:
                 key = queue.pop(0)
-- 
2.43.0


From 3c9cdc031457ea6c0e6f2928fb0865caaec36439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 05/44] fix: keep a separate cache for each PionDecayKelner06
 instance

All instances shared and evicted the entries of one class-level cache.
---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 3db562e..6b5c6cd 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1574,8 +1574,6 @@ class PionDecayKelner06(BaseRadiative):
     # This class doesn't inherit from BaseProton
     param_names = ["nh", "Etrans"]
     _memoize = True
-    _cache = {}
-    _queue = []
 
     def __init__(
         self, particle_distribution, nh=1.0 / u.cm**3, Etrans=0.1 * u.TeV, **kwargs
@@ -1585,6 +1583,8 @@ class PionDecayKelner06(BaseRadiative):
         self.Etrans = validate_scalar(
             "Etrans", Etrans, domain="positive", physical_type="energy"
         )
+        self._cache = {}
+        self._queue = []
 
         self.__dict__.update(**kwargs)
 
-- 
2.43.0


From 0bb1011021805ed272babe164a4c46a348babdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 06/44] fix: compute the requested InverseCompton seed
 component

flux and sed with the seed argument used the components left by the last
spectrum that was actually computed, which are those of other energies or
parameters if the total was served from the cache.
---
 src/naima/radiative.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 6b5c6cd..037b682 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -709,6 +709,13 @@ class InverseCompton(BaseElectron):
 
         return np.sum(u.Quantity(self.specic), axis=0)
 
+    @memoize
+    def _seed_spectrum(self, photon_energy, seed):
+        """Differential IC spectrum from a single seed photon field"""
+        outspecene = _validate_ene(photon_energy)
+
+        return self._calc_specic(seed, outspecene).to("1/(s eV)")
+
     def flux(self, photon_energy, distance=1 * u.kpc, seed=None):
         """Differential flux at a given distance from the source from a single
         seed photon field
@@ -727,9 +734,9 @@ class InverseCompton(BaseElectron):
             is required. If set to None it will return the sum of all
             contributions (default).
         """
-        model = super().flux(photon_energy, distance=distance)
-
-        if seed is not None:
+        if seed is None:
+            model = super().flux(photon_energy, distance=distance)
+        else:
             # Test seed argument
             if not isinstance(seed, int):
                 if seed not in self.seed_photon_fields:
@@ -737,9 +744,7 @@ class InverseCompton(BaseElectron):
                         "Provided seed photon field name is not in"
                         " the definition of the InverseCompton instance"
                     )
-                else:
-                    seed = list(self.seed_photon_fields.keys()).index(seed)
-            elif seed > len(self.seed_photon_fields):
+            elif seed >= len(self.seed_photon_fields):
                 raise ValueError(
                     "Provided seed photon field number is larger"
                     " than the number of seed photon fields defined in the"
@@ -754,7 +759,10 @@ class InverseCompton(BaseElectron):
                 dfac = 1
                 out_unit = "1/(s eV)"
 
-            model = (self.specic[seed] / dfac).to(out_unit)
+            if isinstance(seed, int):
+                seed = list(self.seed_photon_fields.keys())[seed]
+
+            model = (self._seed_spectrum(photon_energy, seed) / dfac).to(out_unit)
 
         return model
 
@@ -775,14 +783,16 @@ class InverseCompton(BaseElectron):
             is required. If set to None it will return the sum of all
             contributions (default).
         """
-        sed = super().sed(photon_energy, distance=distance)
-
-        if seed is not None:
+        if seed is None:
+            sed = super().sed(photon_energy, distance=distance)
+        else:
             if distance != 0:
                 out_unit = "erg/(cm2 s)"
             else:
                 out_unit = "erg/s"
 
+            photon_energy = _validate_ene(photon_energy)
+
             sed = (
                 self.flux(photon_energy, distance=distance, seed=seed)
                 * photon_energy**2.0
-- 
2.43.0


From c283164d8f5a6d4fea744f34fd3e5d525ed28264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 07/44] fix: do not fill in the class-level PionDecay
 coefficients in place

All PionDecay objects of the process shared the lists, so evaluations in
different threads overwrote each other's coefficients.
---
 src/naima/radiative.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 037b682..5ef13a1 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1411,14 +1411,14 @@ class PionDecay(BaseProton):
         idx = np.where((Tp >= self._Tth) * (Tp <= 1.0))
         if idx[0].size > 0:
             kappa = self._kappa(Tp[idx])
-            mp = self._F_mp["ExpData"]
+            mp = list(self._F_mp["ExpData"])
             mp[2] = kappa
             F[idx] = self._F_func(Tp[idx], Egamma, mp)
 
         # 1GeV < Tp < 4 GeV: Geant4 model 0
         idx = np.where((Tp > 1.0) * (Tp <= 4.0))
         if idx[0].size > 0:
-            mp = self._F_mp["Geant4_0"]
+            mp = list(self._F_mp["Geant4_0"])
             mu = self._mu(Tp[idx])
             mp[2] = mu + 2.45
             mp[3] = mu + 1.45
@@ -1427,7 +1427,7 @@ class PionDecay(BaseProton):
         # 4 GeV < Tp < 20 GeV
         idx = np.where((Tp > 4.0) * (Tp <= 20.0))
         if idx[0].size > 0:
-            mp = self._F_mp["Geant4_1"]
+            mp = list(self._F_mp["Geant4_1"])
             mu = self._mu(Tp[idx])
             mp[2] = 1.5 * mu + 4.95
             mp[3] = mu + 1.50
-- 
2.43.0


From 0f161e11801b5c90c24d16259ee82b6f1b7cef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 08/44] fix: keep intermediate spectra out of the shared model
 instance

Spectra were accumulated in instance attributes, so evaluating one model
object from several threads mixed up their results.
---
 src/naima/radiative.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 5ef13a1..2f8f4c2 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -701,13 +701,15 @@ class InverseCompton(BaseElectron):
         """
         outspecene = _validate_ene(photon_energy)
 
-        self.specic = []
+        specic = []
 
         for seed in self.seed_photon_fields:
             # Call actual computation, detached to allow changes in subclasses
-            self.specic.append(self._calc_specic(seed, outspecene).to("1/(s eV)"))
+            specic.append(self._calc_specic(seed, outspecene).to("1/(s eV)"))
 
-        return np.sum(u.Quantity(self.specic), axis=0)
+        self.specic = specic
+
+        return np.sum(u.Quantity(specic), axis=0)
 
     @memoize
     def _seed_spectrum(self, photon_energy, seed):
@@ -1539,11 +1541,13 @@ class PionDecay(BaseProton):
             diffsigma = self.diffsigma(Ep.value, Eg.value) * u.Unit("cm2/GeV")
             specpp.append(trapz_loglog(diffsigma * J, Ep))
 
-        self.specpp = u.Quantity(specpp)
+        specpp = u.Quantity(specpp)
+
+        specpp *= self.nh * c.cgs
 
-        self.specpp *= self.nh * c.cgs
+        self.specpp = specpp
 
-        return self.specpp.to("1/(s eV)")
+        return specpp.to("1/(s eV)")
 
 
 def heaviside(x):
@@ -1705,7 +1709,7 @@ class PionDecayKelner06(BaseRadiative):
         Ep0 = self._mp + Epi / self._Kpi
         qpi = (
             self._c
-            * (self.nhat / self._Kpi)
+            * (1.0 / self._Kpi)
             * self._sigma_inel(Ep0)
             * self._particle_distribution(Ep0)
         )
@@ -1756,25 +1760,28 @@ class PionDecayKelner06(BaseRadiative):
 
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            self.nhat = 1.0  # initial value, works for index~2.1
+            nhat = 1.0  # initial value, works for index~2.1
             if np.any(outspecene < self.Etrans) and np.any(outspecene >= self.Etrans):
                 # compute value of nhat so that delta functional matches
                 # accurate calculation at 0.1TeV
                 full = self._calc_specpp_hiE(self.Etrans)
                 delta = self._calc_specpp_loE(self.Etrans)
-                self.nhat *= (full / delta).decompose().value
+                nhat *= (full / delta).decompose().value
 
-            self.specpp = np.zeros(len(outspecene)) * u.Unit("1/(s TeV)")
+            specpp = np.zeros(len(outspecene)) * u.Unit("1/(s TeV)")
 
             for i, Egamma in enumerate(outspecene):
                 if Egamma >= self.Etrans:
-                    self.specpp[i] = self._calc_specpp_hiE(Egamma)
+                    specpp[i] = self._calc_specpp_hiE(Egamma)
                 else:
-                    self.specpp[i] = self._calc_specpp_loE(Egamma)
+                    specpp[i] = nhat * self._calc_specpp_loE(Egamma)
+
+        self.nhat = nhat
+        self.specpp = specpp
 
         density_factor = (self.nh / (1 * u.Unit("1/cm3"))).decompose().value
 
-        return density_factor * self.specpp.to("1/(s eV)")
+        return density_factor * specpp.to("1/(s eV)")
 
 
 class LookupTable:
-- 
2.43.0


From 2ffd7a26fd76086efc0e0a536570f9146e99c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 09/44] fix: do not rescale the caller's amplitude in set_We
 and set_Wp

The in-place product changed the Quantity passed in by the caller and every
other distribution built from it.
---
 src/naima/radiative.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 2f8f4c2..c6e2586 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -220,7 +220,9 @@ class BaseElectron(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (We / oldWe).decompose()
+                self.particle_distribution.amplitude = (
+                    self.particle_distribution.amplitude * (We / oldWe).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
@@ -1092,7 +1094,9 @@ class BaseProton(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (Wp / oldWp).decompose()
+                self.particle_distribution.amplitude = (
+                    self.particle_distribution.amplitude * (Wp / oldWp).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
-- 
2.43.0


From 5968b456537c28c7560d8874fdd5176c6c222ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 10/44] fix: use the confidence level of the violated upper
 limits

The number of violated upper limits was used as row index, which picked the
confidence level of an unrelated point or failed when all points are
violated upper limits.
---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index c397c6a..ff75678 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -88,8 +88,8 @@ def lnprobmodel(model, data):
 
     if np.sum(ul) > 0:
         # deal with upper limits at CL set by data['cl']
-        violated_uls = np.sum(model[ul] > data["flux"][ul])
-        totallogprob += violated_uls * np.log(1.0 - data["cl"][violated_uls])
+        violated_uls = model[ul] > data["flux"][ul]
+        totallogprob += np.sum(np.log(1.0 - data["cl"][ul][violated_uls]))
 
     return totallogprob
 
-- 
2.43.0


From ff67e24a011a036690a7ac43a3f48aa88c9a45eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 11/44] fix: keep model outputs of equal shape as separate
 blobs

numpy merged outputs of equal shape (or a single output in a list) into one
array of numbers, losing their units and making the run impossible to save
or plot.
---
 src/naima/core.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index ff75678..2927198 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -105,12 +105,21 @@ def lnprob(pars, data, modelfunc, priorfunc):
     # Save blobs or save model if no blobs given
     if isinstance(modelout, Iterable) and not isinstance(modelout, np.ndarray):
         model = modelout[0]
-        blob = modelout
+        outputs = list(modelout)
     else:
         model = modelout
-        # Avoid squeezing of the model output in order to retain units by
-        # adding a second dummy object blob
-        blob = (modelout, np.nan)
+        outputs = [modelout]
+
+    # Avoid squeezing of the model output in order to retain units by adding a
+    # second dummy object blob
+    if len(outputs) == 1:
+        outputs.append(np.nan)
+
+    # An array of objects is kept as is, whereas a list of Quantity arrays of
+    # the same shape would be converted to numbers without units
+    blob = np.empty(len(outputs), dtype=object)
+    for i, output in enumerate(outputs):
+        blob[i] = output
 
     if not np.isinf(lnprob_priors):
         lnprob_model = lnprobmodel(model, data)
@@ -118,7 +127,7 @@ def lnprob(pars, data, modelfunc, priorfunc):
     else:
         total_lnprob = lnprob_priors
 
-    return (total_lnprob, *blob)
+    return total_lnprob, blob
 
 
 # Sampler funcs
-- 
2.43.0


From a23cd2ee7ae4244ebdcc3d907ce4037e1ed0488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 12/44] fix: do not modify the caller's p0 and labels in
 get_sampler

The normalization guess was applied in place to the initial position vector,
and the list of labels was extended in place.
---
 src/naima/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/naima/core.py b/src/naima/core.py
index 2927198..b56a061 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -350,6 +350,11 @@ def get_sampler(
     if model is None:
         raise TypeError("Model function is missing!")
 
+    # Work on copies, the arguments belong to the caller
+    p0 = np.array(p0, dtype=float)
+    if labels is not None:
+        labels = list(labels)
+
     # Add parameter labels if not provided or too short
     if labels is None:
         # First is normalization
-- 
2.43.0


From 4aca777a1f719f2fd965d0dc2eb124b585d2da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 13/44] fix: do not modify the caller's labels in
 InteractiveModelFitter

---
 src/naima/model_fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 6f96389..902b1e0 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -68,12 +68,13 @@ class InteractiveModelFitter:
         import matplotlib.pyplot as plt
         from matplotlib.widgets import Button, CheckButtons, Slider
 
-        self.pars = p0
+        self.pars = list(p0)
         self.P0_IS_ML = False
         npars = len(p0)
         if labels is None:
             labels = ["par{0}".format(i) for i in range(npars)]
         elif len(labels) < npars:
+            labels = list(labels)
             labels += ["par{0}".format(i) for i in range(len(labels), npars)]
 
         self.hasdata = data is not None
-- 
2.43.0


From ac20a5170f915a1cd70fde2a50909bacb3948048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 14/44] fix: do not modify option containers in plots

The list of confidence levels, the list of blob labels and the (default)
upper limit options were modified in place, which also changed later plots.
---
 src/naima/analysis.py | 1 +
 src/naima/plot.py     | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 70d500b..017b558 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -133,6 +133,7 @@ def save_diagnostic_plots(
     elif len(blob_labels) < len(modelidxs):
         # Add labels
         n = len(blob_labels)
+        blob_labels = list(blob_labels)
         blob_labels += ["Model output {0}".format(idx) for idx in modelidxs[n:]]
 
     for modelidx, plot_sed, label in zip(modelidxs, sed, blob_labels):
diff --git a/src/naima/plot.py b/src/naima/plot.py
index 72c610d..1b4b8ab 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -559,7 +559,7 @@ def plot_CI(
         Whether to only use the positions in the final step of the run (True,
         default) or the whole chain (False).
     """
-    confs.sort(reverse=True)
+    confs = sorted(confs, reverse=True)
 
     modelx, CI = _calc_CI(
         sampler,
@@ -1080,7 +1080,7 @@ def _plot_data_to_ax(
 
         if np.any(ul):
             if "elinewidth" in errorbar_opts:
-                ulim_opts["elinewidth"] = errorbar_opts["elinewidth"]
+                ulim_opts = dict(ulim_opts, elinewidth=errorbar_opts["elinewidth"])
 
             _plot_ulims(
                 ax1,
-- 
2.43.0


From 5985173f8e80f7b7c76fa270c98f303c0136878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 15/44] fix: release the worker pool on errors and allow to
 continue a run

The pool stayed open when the burn-in or the run failed, and after a run the
sampler still referred to the closed pool, so continuing it raised
'Pool not running'.
---
 src/naima/core.py | 49 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index b56a061..3c35748 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -133,6 +133,22 @@ def lnprob(pars, data, modelfunc, priorfunc):
 # Sampler funcs
 
 
+def _start_pool(sampler):
+    """Start the worker processes requested for sampler if not yet running"""
+    threads = getattr(sampler, "_naima_threads", 1)
+    if threads > 1 and sampler.pool is None:
+        sampler._naima_pool = sampler.pool = Pool(threads)
+
+
+def _stop_pool(sampler):
+    """Release the worker processes started by `_start_pool`"""
+    pool = getattr(sampler, "_naima_pool", None)
+    if pool is not None:
+        sampler._naima_pool = sampler.pool = None
+        pool.terminate()
+        pool.join()
+
+
 def _run_mcmc(sampler, pos, nrun):
     for i, state in enumerate(sampler.sample(pos, iterations=nrun, store=True)):
         progress = 100.0 * float(i) / float(nrun)
@@ -459,17 +475,16 @@ def get_sampler(
 
     if threads is None:
         threads = os.cpu_count() or 1
-    pool = Pool(threads) if threads > 1 else None
 
     sampler = emcee.EnsembleSampler(
         nwalkers,
         len(p0),
         lnprob,
         args=[data, model, prior],
-        pool=pool,
         blobs_dtype=np.dtype(object),
     )
-    sampler._naima_pool = pool
+    sampler._naima_threads = threads
+    sampler._naima_pool = None
 
     # Add data and parameters properties to sampler
     sampler.data_table = data_table
@@ -496,7 +511,12 @@ def get_sampler(
 
     if nburn > 0:
         print("Burning in the {0} walkers with {1} steps...".format(nwalkers, nburn))
-        sampler, state = _run_mcmc(sampler, p0, nburn)
+        _start_pool(sampler)
+        try:
+            sampler, state = _run_mcmc(sampler, p0, nburn)
+        except BaseException:
+            _stop_pool(sampler)
+            raise
     else:
         state = emcee.State(p0)
 
@@ -537,16 +557,15 @@ def run_sampler(nrun=100, sampler=None, pos=None, **kwargs):
     if sampler is None or pos is None:
         sampler, pos = get_sampler(**kwargs)
 
-    sampler.run_info["n_run"] = nrun
-
-    print("\nWalker burn in finished, running {0} steps...".format(nrun))
-    sampler.reset()
-    sampler, pos = _run_mcmc(sampler, pos, nrun)
-
-    # Clean up the multiprocessing pool
-    if hasattr(sampler, "_naima_pool") and sampler._naima_pool is not None:
-        sampler._naima_pool.close()
-        sampler._naima_pool.join()
-        sampler._naima_pool = None
+    try:
+        sampler.run_info["n_run"] = nrun
+
+        print("\nWalker burn in finished, running {0} steps...".format(nrun))
+        sampler.reset()
+        _start_pool(sampler)
+        sampler, pos = _run_mcmc(sampler, pos, nrun)
+    finally:
+        # Clean up the multiprocessing pool
+        _stop_pool(sampler)
 
     return sampler, pos
-- 
2.43.0


From ba7f54f452b9ba48b29f90a9a80c9be460db3482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 16/44] fix: use the last step in save_results_table with
 last_step

The table held the history of the last walker instead of the positions of
all walkers in the last step.
---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 017b558..09dba47 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -240,7 +240,7 @@ def save_results_table(
     labels = sampler.labels
 
     if last_step:
-        dists = sampler.get_chain()[:, -1, :]
+        dists = sampler.get_chain()[-1]
     else:
         dists = sampler.get_chain(flat=True)
 
-- 
2.43.0


From e67316d1b7de5cd7c5aa517f3a6ee698dd6d02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 17/44] fix: draw on the figure given to plot_fit

The axes were created on the current figure, which failed if that was not the
given one.
---
 src/naima/plot.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 1b4b8ab..93042be 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -872,10 +872,8 @@ def plot_fit(
         f = figure
 
     if plotdata and plotresiduals:
-        ax1 = plt.subplot2grid((4, 1), (0, 0), rowspan=3)
-        ax2 = plt.subplot2grid((4, 1), (3, 0), sharex=ax1)
-        for subp in [ax1, ax2]:
-            f.add_subplot(subp)
+        ax1 = plt.subplot2grid((4, 1), (0, 0), rowspan=3, fig=f)
+        ax2 = plt.subplot2grid((4, 1), (3, 0), sharex=ax1, fig=f)
     else:
         ax1 = f.add_subplot(111)
 
-- 
2.43.0


From 2733163ad698be2c446e42131d90d705256d1b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 18/44] fix: use the stored model outputs of runs read with
 read_run in plot_fit

plot_fit recomputed the model for such runs, and failed without a model
function, although their model outputs are stored as for a sampler.
---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 93042be..5fbc3a2 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -840,7 +840,7 @@ def plot_fit(
 
     data = sampler.data
 
-    if e_range is None and not hasattr(sampler, "blobs"):
+    if e_range is None and sampler.get_blobs() is None:
         e_range = data["energy"][[0, -1]] * np.array((1.0 / 3.0, 3.0))
 
     if plotdata is None and len(model_ML[0]) == len(data["energy"]):
-- 
2.43.0


From 07197735a0a5cea52937a6d40be8a76c6b5b759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 19/44] fix: restore the line width setting when plot_corner
 fails

---
 src/naima/plot.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 5fbc3a2..c4511c9 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1407,8 +1407,6 @@ def plot_corner(sampler, show_ML=True, **kwargs):
     """
     import matplotlib.pyplot as plt
 
-    oldlw = plt.rcParams["lines.linewidth"]
-    plt.rcParams["lines.linewidth"] = 0.7
     try:
         from corner import corner
 
@@ -1427,11 +1425,10 @@ def plot_corner(sampler, show_ML=True, **kwargs):
 
         corner_opts.update(kwargs)
 
-        f = corner(sampler.get_chain(flat=True), **corner_opts)
+        with plt.rc_context({"lines.linewidth": 0.7}):
+            f = corner(sampler.get_chain(flat=True), **corner_opts)
     except ImportError:
         log.warning("The corner package is not installed; corner plot not available")
         f = None
 
-    plt.rcParams["lines.linewidth"] = oldlw
-
     return f
-- 
2.43.0


From b729a3108c660882f310416265608eecc28dcdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 20/44] fix: restore settings and close figures when diagnostic
 plots fail

A failing corner plot ended the call with the plotting settings changed, the
PDF file open and the remaining plots missing, and the figures of failed plots
stayed open.
---
 src/naima/analysis.py | 70 +++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 09dba47..938bc2b 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -72,18 +72,45 @@ def save_diagnostic_plots(
 
     from matplotlib import pyplot as plt
 
-    from .plot import plot_blob, plot_chain, plot_corner
+    args = (
+        outname,
+        sampler,
+        modelidxs,
+        sed,
+        blob_labels,
+        last_step,
+        dpi,
+    )
+
+    # This function should never be interactive, and leave neither changed
+    # settings nor open figures or files behind, even if it fails
+    with plt.rc_context({"interactive": False, "pdf.fonttype": 42}):
+        old_figures = plt.get_fignums()
+        try:
+            if pdf:
+                log.info(
+                    "Saving diagnostic plots in file {0}_plots.pdf".format(outname)
+                )
+                from matplotlib.backends.backend_pdf import PdfPages
 
-    # This function should never be interactive
-    old_interactive = plt.rcParams["interactive"]
-    plt.rcParams["interactive"] = False
+                with PdfPages("{0}_plots.pdf".format(outname)) as outpdf:
+                    _save_diagnostic_plots(*args, outpdf=outpdf)
+            else:
+                _save_diagnostic_plots(*args)
+        finally:
+            for num in plt.get_fignums():
+                if num not in old_figures:
+                    plt.close(num)
 
-    if pdf:
-        plt.rc("pdf", fonttype=42)
-        log.info("Saving diagnostic plots in file {0}_plots.pdf".format(outname))
-        from matplotlib.backends.backend_pdf import PdfPages
 
-        outpdf = PdfPages("{0}_plots.pdf".format(outname))
+def _save_diagnostic_plots(
+    outname, sampler, modelidxs, sed, blob_labels, last_step, dpi, outpdf=None
+):
+    from matplotlib import pyplot as plt
+
+    from .plot import plot_blob, plot_chain, plot_corner
+
+    pdf = outpdf is not None
 
     # Chains
 
@@ -108,14 +135,17 @@ def save_diagnostic_plots(
 
     log.info("Plotting corner plot...")
 
-    f = plot_corner(sampler)
-    if f is not None:
-        if pdf:
-            f.savefig(outpdf, format="pdf", dpi=dpi)
-        else:
-            f.savefig("{0}_corner.png".format(outname), dpi=dpi)
-        f.clf()
-        plt.close(f)
+    try:
+        f = plot_corner(sampler)
+        if f is not None:
+            if pdf:
+                f.savefig(outpdf, format="pdf", dpi=dpi)
+            else:
+                f.savefig("{0}_corner.png".format(outname), dpi=dpi)
+            f.clf()
+            plt.close(f)
+    except Exception as e:
+        log.warning("plot_corner failed: {0}".format(e))
 
     # Fit
 
@@ -156,12 +186,6 @@ def save_diagnostic_plots(
         except Exception as e:
             log.warning("plot_blob failed for {0}: {1}".format(label, e))
 
-    if pdf:
-        outpdf.close()
-
-    # set interactive back to original
-    plt.rcParams["interactive"] = old_interactive
-
 
 def save_results_table(
     outname,
-- 
2.43.0


From 39f86b7975cd82b04b49e7b362b64d496e834463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 21/44] fix: read back all stored blobs of a saved run at their
 position

read_run stopped at the first blob that could not be saved, dropped the third
and later arrays of an output and outputs with several scalars, and merged
outputs of equal shape. Values were not converted to the stored unit if the
unit varied along the chain.
---
 src/naima/analysis.py | 110 +++++++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 50 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 938bc2b..0c1b4ec 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -450,7 +450,7 @@ def save_run(filename, sampler, compression=True, clobber=False):
             else:
                 log.warning(
                     "blob number {0} has unknown format and cannot be saved "
-                    "in HDF5 file"
+                    "in HDF5 file".format(idx)
                 )
                 continue
 
@@ -459,13 +459,29 @@ def save_run(filename, sampler, compression=True, clobber=False):
             blob = []
             for step in sampler.get_blobs():
                 for walkerblob in step:
-                    blob.append(walkerblob[idx])
-            blob = u.Quantity(blob).value
+                    values = walkerblob[idx]
+                    if not isinstance(item, (tuple, list)):
+                        blob.append(u.Quantity(values).to_value(units[0]))
+                    else:
+                        blob.append(
+                            [
+                                u.Quantity(value).to_value(unit)
+                                for value, unit in zip(values, units)
+                            ]
+                        )
+            try:
+                blob = np.array(blob, dtype=float)
+            except ValueError:
+                log.warning(
+                    "blob number {0} has arrays of different sizes and cannot "
+                    "be saved in HDF5 file".format(idx)
+                )
+                continue
 
             blobdataset = group.create_dataset(
                 "blob{0}".format(idx), data=blob, compression=compression
             )
-            if len(units) > 1:
+            if isinstance(item, (tuple, list)):
                 for j, unit in enumerate(units):
                     blobdataset.attrs["unit{0}".format(j)] = unit
             else:
@@ -552,62 +568,56 @@ def read_run(filename, modelfn=None):
     result.modelfn = modelfn
     result.run_info = {}
 
-    f = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as f:
+        _read_group(f["mcmc"], result)
+
+    return result
+
+
+def _read_group(group, result):
+    """Fill result with the contents of the hdf5 group"""
+
     # chain and lnprobability
-    result.chain = np.array(f["mcmc/chain"])
-    result.log_prob = np.array(f["mcmc/log_prob"])
+    result.chain = np.array(group["chain"])
+    result.log_prob = np.array(group["log_prob"])
 
     # blobs
-    result_blobs = []
-    nsteps, nwalkers, nblobs = result.chain.shape
-    blobs = []
-    blobrank = []
-    for i in range(100):
-        # first read each of the blobs and convert to Quantities
-        try:
-            ds = f["mcmc/blob{0}".format(i)]
-            rank = np.ndim(ds[0])
-            blobrank.append(rank)
-            if rank <= 1:
-                blobs.append(u.Quantity(ds[()], unit=ds.attrs["unit"]))
-            else:
-                blob = []
-                for j in range(np.ndim(ds[0])):
-                    blob.append(
-                        u.Quantity(ds[:, j, :], unit=ds.attrs["unit{0}".format(j)])
-                    )
-                blobs.append(blob)
-        except KeyError:
-            break
-
-    # Now organize in an awful list of lists of arrays
+    nsteps, nwalkers, npars = result.chain.shape
+    blobs = {}
+    for name in group:
+        if not (name.startswith("blob") and name[4:].isdigit()):
+            continue
+        # read each of the blobs and convert to Quantities
+        ds = group[name]
+        if "unit" in ds.attrs:
+            blobs[int(name[4:])] = u.Quantity(ds[()], unit=ds.attrs["unit"])
+        else:
+            # outputs with several arrays have a unit for each of them
+            blobs[int(name[4:])] = [
+                u.Quantity(ds[:, j], unit=ds.attrs["unit{0}".format(j)])
+                for j in range(ds.shape[1])
+            ]
+
+    # Now organize in an array of objects, with a placeholder for blobs that
+    # could not be saved
+    nblobs = max(blobs) + 1 if blobs else 0
+    result._blobs = np.full((nsteps, nwalkers, nblobs), np.nan, dtype=object)
     for step in range(nsteps):
-        steplist = []
         for walker in range(nwalkers):
             n = step * nwalkers + walker
-            walkerblob = []
-            for j in range(len(blobs)):
-                if blobrank[j] <= 1:
-                    walkerblob.append(blobs[j][n])
+            for j, blob in blobs.items():
+                if isinstance(blob, list):
+                    result._blobs[step, walker, j] = [item[n] for item in blob]
                 else:
-                    blob = []
-                    for k in range(blobrank[j]):
-                        blob.append(blobs[j][k][n])
-                    walkerblob.append(blob)
-            steplist.append(walkerblob)
-        result_blobs.append(steplist)
-
-    result._blobs = np.array(result_blobs, dtype=np.dtype("object"))
+                    result._blobs[step, walker, j] = blob[n]
 
     # run info
-    result.run_info = dict(f["mcmc"].attrs)
-    result.acceptance_fraction = f["mcmc"].attrs["acceptance_fraction"]
+    result.run_info = dict(group.attrs)
+    result.acceptance_fraction = group.attrs["acceptance_fraction"]
     # labels
     result.labels = []
-    for i in range(nblobs):
-        result.labels.append(f["mcmc"].attrs["label{0}".format(i)])
+    for i in range(npars):
+        result.labels.append(group.attrs["label{0}".format(i)])
 
     # data
-    result.data = read_table_hdf5(f["mcmc"], "data")
-
-    return result
+    result.data = read_table_hdf5(group, "data")
-- 
2.43.0


From e7ef17c9c049d92ac7885c8b4eb9b8d871d0cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 22/44] fix: do not destroy a previous run when save_run fails

With clobber=True the old file was truncated first and lost if writing the
new one failed, and an incomplete file was left in its place.
---
 src/naima/analysis.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 0c1b4ec..5065122 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -421,6 +421,21 @@ def save_run(filename, sampler, compression=True, clobber=False):
         log.warning("Not writing file because file exists and clobber is False")
         return
 
+    # Write to a temporary file, so that neither an error nor a crash leaves an
+    # incomplete file or destroys a previous run
+    target = os.path.realpath(filename)
+    tmpname = "{0}.{1}.tmp".format(target, os.getpid())
+    try:
+        _write_run(tmpname, sampler, compression)
+        os.replace(tmpname, target)
+    finally:
+        if os.path.exists(tmpname):
+            os.remove(tmpname)
+
+
+def _write_run(filename, sampler, compression):
+    """Write the contents of sampler to a new hdf5 file"""
+
     with h5py.File(filename, "w") as f:
         group = f.create_group("mcmc")
         group.create_dataset("chain", data=sampler.get_chain(), compression=compression)
-- 
2.43.0


From 64e80569d6482bd4418e6d9493c5b72dc84ebb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 23/44] fix: keep parameters and displayed model together in
 InteractiveModelFitter

A fit that did not converge or a model that failed changed the parameters but
not the displayed model, and parameters limited by the sliders were flagged as
maximum likelihood.
---
 src/naima/model_fitter.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 902b1e0..d8732d4 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -238,35 +238,39 @@ class InteractiveModelFitter:
             self.update(val)
 
     def update(self, event):
-        # If we update, values have changed and P0 is not ML anymore
-        self.P0_IS_ML = False
-        self.pars = [slider.val for slider in self.parsliders]
-        model = _process_model(self.modelfn(self.pars, self.data_for_model))
-        self.line.set_ydata((model * self.sedf).to(self.f_unit))
+        pars = [slider.val for slider in self.parsliders]
+        model = _process_model(self.modelfn(pars, self.data_for_model))
+        ydata = (model * self.sedf).to(self.f_unit)
         if self.hasdata:
             if not np.array_equal(
                 self.data_for_model["energy"].to(u.eV).value,
                 self.data["energy"].to(u.eV).value,
             ):
                 # this will be slow, maybe interpolate already computed model?
-                model = _process_model(self.modelfn(self.pars, self.data))
+                model = _process_model(self.modelfn(pars, self.data))
             lnprob = lnprobmodel(model, self.data)
             if isinstance(lnprob, u.Quantity):
                 lnprob = lnprob.decompose().value
             self.lnprobtxt.set_text(r"$\ln\mathcal{{L}} = {0:.1f}$".format(lnprob))
+        # If we update, values have changed and P0 is not ML anymore
+        self.P0_IS_ML = False
+        self.pars = pars
+        self.line.set_ydata(ydata)
         self.fig.canvas.draw_idle()
 
     def do_fit(self, event):
-        self.pars = [slider.val for slider in self.parsliders]
-        self.pars, P0_IS_ML = _prefit(self.pars, self.data, self.modelfn, None)
+        pars = [slider.val for slider in self.parsliders]
+        pars, P0_IS_ML = _prefit(pars, self.data, self.modelfn, None)
         autoupdate = self.autoupdate
         self.autoupdate = False
-        if P0_IS_ML:
-            for slider, val in zip(self.parsliders, self.pars):
+        try:
+            for slider, val in zip(self.parsliders, pars):
                 slider.set_val(val)
-            self.update("after_fit")
-        self.autoupdate = autoupdate
-        self.P0_IS_ML = P0_IS_ML
+        finally:
+            self.autoupdate = autoupdate
+        self.update("after_fit")
+        # The sliders may not be able to reach the fit result
+        self.P0_IS_ML = P0_IS_ML and np.array_equal(self.pars, pars)
 
     def close_fig(self, event):
         import matplotlib.pyplot as plt
-- 
2.43.0


From f40e1a5c5994fd58aa2341996b9a39764bee665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 24/44] fix: restore the interactive setting when the
 interactive fitter fails

---
 src/naima/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 3c35748..375e710 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -458,10 +458,12 @@ def get_sampler(
 
             iprev = plt.rcParams["interactive"]
             plt.rcParams["interactive"] = False
-            imf = InteractiveModelFitter(model, p0, data, labels=labels, sed=True)
+            try:
+                imf = InteractiveModelFitter(model, p0, data, labels=labels, sed=True)
+            finally:
+                plt.rcParams["interactive"] = iprev
             p0 = imf.pars
             P0_IS_ML = imf.P0_IS_ML
-            plt.rcParams["interactive"] = iprev
         except ImportError as e:
             log.warning(
                 "Interactive fitting is not available because"
-- 
2.43.0


From af194b41755bb73e3021935a24a7ba5e56245a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 25/44] fix: do not hide errors of the particle distribution in
 PionDecayKelner06

---
 src/naima/radiative.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index c6e2586..0be7aa0 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1666,15 +1666,17 @@ class PionDecayKelner06(BaseRadiative):
         Integrand of Eq. 72
         """
         try:
-            return (
-                self._sigma_inel(Egamma / x)
-                * self._particle_distribution((Egamma / x))
-                * self._Fgamma(x, Egamma / x)
-                / x
-            )
+            Ep = Egamma / x
         except ZeroDivisionError:
             return np.nan
 
+        return (
+            self._sigma_inel(Ep)
+            * self._particle_distribution(Ep)
+            * self._Fgamma(x, Ep)
+            / x
+        )
+
     def _calc_specpp_hiE(self, Egamma):
         """
         Spectrum computed as in Eq. 42 for Egamma >= 0.1 TeV
-- 
2.43.0


From 41878433f7e606cba02b0585c0e6df8c53d6f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 26/44] fix: do not install an invalid warning filter while
 memoizing

---
 src/naima/model_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index 2ad6139..c8f776a 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -7,6 +7,11 @@ import warnings
 import numpy as np
 from astropy import units as u
 
+try:
+    from numpy.exceptions import VisibleDeprecationWarning
+except ImportError:  # numpy < 1.25
+    from numpy import VisibleDeprecationWarning
+
 
 def _exact_repr(value):
     """Unambiguous string for a value: equal strings mean equal values.
@@ -76,10 +81,7 @@ def memoize(func):
             # Quantity scalar
             try:
                 with warnings.catch_warnings():
-                    warnings.simplefilter(
-                        "ignore",
-                        getattr(np, "VisibleDeprecationWarning", None),
-                    )
+                    warnings.simplefilter("ignore", VisibleDeprecationWarning)
                     energy = u.Quantity(energy["energy"])
             except (TypeError, ValueError, IndexError):
                 pass
-- 
2.43.0


From feb8a3459122020ef337d7a7821bd4066ecb64ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 27/44] fix: energy edges of tables that are not sorted by
 energy

---
 src/naima/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index e12bbf1..ffff8b8 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -357,13 +357,17 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
 
 def _generate_energy_edges_single(ene):
     """Generate energy edges for single group"""
+    # the edges lie between neighbouring energies, in whatever order they come
+    order = np.argsort(ene)
+    ene = ene[order]
     midene = np.sqrt((ene[1:] * ene[:-1]))
     elo, ehi = np.zeros(len(ene)) * ene.unit, np.zeros(len(ene)) * ene.unit
     elo[1:] = ene[1:] - midene
     ehi[:-1] = midene - ene[:-1]
     elo[0] = ene[0] * (1 - ene[0] / (ene[0] + ehi[0]))
     ehi[-1] = elo[-1]
-    return u.Quantity([elo, ehi])
+    unsort = np.argsort(order)
+    return u.Quantity([elo[unsort], ehi[unsort]])
 
 
 def generate_energy_edges(ene, groups=None):
-- 
2.43.0


From 78f6be1d38146be307dafbf2a6b0d19875156ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 28/44] fix: plot data that are all compatible with zero

---
 src/naima/plot.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index c4511c9..8ea7281 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1101,12 +1101,15 @@ def _plot_data_to_ax(
     # avoid autoscaling to errorbars to 0
     notul = ~data_all["ul"]
     if np.any(data_all["flux_error_lo"][notul] >= data_all["flux"][notul]):
-        elo = (data_all["flux"][notul] * sedf[notul]).to(f_unit).value - (
-            data_all["flux_error_lo"][notul] * sedf[notul]
-        ).to(f_unit).value
-        gooderr = np.where(data_all["flux_error_lo"][notul] < data_all["flux"][notul])
-        ymin = 10 ** np.floor(np.log10(np.min(elo[gooderr])))
-        ax1.set_ylim(bottom=ymin)
+        flux = (data_all["flux"][notul] * sedf[notul]).to(f_unit).value
+        elo = (
+            flux - (data_all["flux_error_lo"][notul] * sedf[notul]).to(f_unit).value
+        )
+        # if all points are compatible with 0, show at least their fluxes
+        lower = np.concatenate([elo[elo > 0], flux[flux > 0]])
+        if len(lower) > 0:
+            ymin = 10 ** np.floor(np.log10(np.min(lower)))
+            ax1.set_ylim(bottom=ymin)
 
     if ylabel is None:
         if sed:
-- 
2.43.0


From 334a68a303335d57f0e902c867b98b9161b8be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 29/44] fix: release the worker pool if burn-in is interrupted
 right at its start

---
 src/naima/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 375e710..9efb5fa 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -513,8 +513,8 @@ def get_sampler(
 
     if nburn > 0:
         print("Burning in the {0} walkers with {1} steps...".format(nwalkers, nburn))
-        _start_pool(sampler)
         try:
+            _start_pool(sampler)
             sampler, state = _run_mcmc(sampler, p0, nburn)
         except BaseException:
             _stop_pool(sampler)
-- 
2.43.0


From 79e9c910fba49c24d38195af8a90c896b95f7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 30/44] fix: plot_fit with an e_range far away from the data

---
 src/naima/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 8ea7281..ca1f3a6 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -956,9 +956,11 @@ def plot_fit(
         # scale x axis to largest model_ML x point within ndecades decades of
         # maximum
         f_unit, sedf = sed_conversion(model_ML[0], model_ML[1].unit, sed)
-        hi = np.where((model_ML[1] * sedf).to(f_unit).value > ymin)
-        xmax = np.max(model_ML[0][hi])
-        ax1.set_xlim(right=10 ** np.ceil(np.log10(xmax.to(e_unit).value)))
+        hi = (model_ML[1] * sedf).to(f_unit).value > ymin
+        if np.any(hi):
+            # the stored model may lie far from the e_range shown
+            xmax = np.max(model_ML[0][hi])
+            ax1.set_xlim(right=10 ** np.ceil(np.log10(xmax.to(e_unit).value)))
 
     if e_range is not None:
         # ensure that xmin/xmax contains e_range
-- 
2.43.0


From 95acc37921c254e0c68cd0587a9bd0e4ac6c1784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 31/44] fix: report write errors of save_run

HDF5 does not report errors of the final flush of compressed data. Create the
file in memory and write it to disk at once.
---
 src/naima/analysis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 5065122..a2584d7 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -1,4 +1,5 @@
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
+import io
 import os
 from pathlib import Path
 
@@ -426,7 +427,12 @@ def save_run(filename, sampler, compression=True, clobber=False):
     target = os.path.realpath(filename)
     tmpname = "{0}.{1}.tmp".format(target, os.getpid())
     try:
-        _write_run(tmpname, sampler, compression)
+        # Create the file in memory first, because HDF5 does not report all
+        # write errors
+        contents = io.BytesIO()
+        _write_run(contents, sampler, compression)
+        with open(tmpname, "wb") as f:
+            f.write(contents.getbuffer())
         os.replace(tmpname, target)
     finally:
         if os.path.exists(tmpname):
-- 
2.43.0


From 44ef81600e8eeb410d75a4d64cb1d80ee9643ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 32/44] fix: labels that contain but do not start with log(

The table took the samples of another parameter as converted values, or failed.
---
 src/naima/analysis.py | 2 +-
 src/naima/plot.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index a2584d7..e107da2 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -311,7 +311,7 @@ def save_results_table(
 
         t.add_row((label, med, lo, hi))
 
-        if convert_log and ("log10(" in label or "log(" in label):
+        if convert_log and label.startswith(("log10(", "log(")):
             nlabel = label.split("(")[-1].split(")")[0]
             ltype = label.split("(")[0]
             if ltype == "log10":
diff --git a/src/naima/plot.py b/src/naima/plot.py
index ca1f3a6..902d331 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -241,7 +241,7 @@ def _plot_chain_func(sampler, p, last_step=False):
 
     chain_props += info_line
 
-    if "log10(" in label or "log(" in label:
+    if label.startswith(("log10(", "log(")):
         nlabel = label.split("(")[-1].split(")")[0]
         ltype = label.split("(")[0]
         if ltype == "log10":
-- 
2.43.0


From 621a4147af7f2fc57d3f6cb1c7f4c9c10b0278b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 33/44] fix: statistics of text outputs and of outputs in
 several units in results tables

---
 src/naima/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index e107da2..e2dc26c 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -336,7 +336,7 @@ def save_results_table(
                 if blob0.size == 1:
                     IS_SCALAR = True
                     unit = blob0.unit
-            elif np.isscalar(blob0):
+            elif np.isscalar(blob0) and np.issubdtype(type(blob0), np.number):
                 IS_SCALAR = True
                 unit = None
 
@@ -349,7 +349,7 @@ def save_results_table(
                         for walkerblob in step:
                             blobl.append(walkerblob[idx])
                 if unit:
-                    dist = np.array([b.value for b in blobl])
+                    dist = np.array([b.to_value(unit) for b in blobl])
                     metadata["blob{0}_unit".format(idx)] = unit.to_string()
                 else:
                     dist = np.array(blobl)
-- 
2.43.0


From e5669ec5f124992137a7e154a037697c78258215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 34/44] fix: results tables with labels that are not ascii

---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index e2dc26c..c8d9571 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -273,7 +273,7 @@ def save_results_table(
     # Do we need more info on the distributions?
     t = Table(
         names=["label", "median", "unc_lo", "unc_hi"],
-        dtype=["S72", "f8", "f8", "f8"],
+        dtype=["U72", "f8", "f8", "f8"],
     )
     t["label"].description = "Name of the parameter"
     t["median"].description = "Median of the posterior distribution function"
-- 
2.43.0


From 4b30e76ab7350b97834e8c83fb6a32275aaeedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 35/44] fix: keep the confidence levels of validated data
 tables

The interactive fit before a run used 90% instead of the levels of the data.
---
 src/naima/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index ffff8b8..750183a 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -202,6 +202,11 @@ def _validate_single_data_table(data_table, group=0):
             CL = validate_scalar("cl", data_table.meta["keywords"]["cl"]["value"])
             data["cl"] = [CL] * len(data["energy"])
 
+    if not HAS_CL and "cl" in data_table.colnames:
+        # keep the confidence levels of a table that was already validated
+        HAS_CL = True
+        data["cl"] = data_table["cl"]
+
     if not HAS_CL:
         data["cl"] = [0.9] * len(data["energy"])
         if np.sum(data["ul"]) > 0:
-- 
2.43.0


From 4a1d235a74e6bddcc31757c544944666b957f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 36/44] fix: Bremsstrahlung with a zero electron-electron or
 electron-proton weight

---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 0be7aa0..2c99e52 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -956,7 +956,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-electron bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ee == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * u.cm**3 / (u.s * Eph.unit)
 
         gam = np.vstack(self._gam)
         # compute integral with electron distribution
@@ -972,7 +972,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-proton bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ep == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * u.cm**3 / (u.s * Eph.unit)
 
         gam = np.vstack(self._gam)
         eps = (Eph / mec2).decompose().value
-- 
2.43.0


From 851f21f81743d92744174fe7a640fb141df2a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:19 +0000
Subject: [PATCH 37/44] fix: sherpa cache confused bins with points of the same
 values

---
 src/naima/sherpa_models.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/naima/sherpa_models.py b/src/naima/sherpa_models.py
index ce9f01c..b167cb5 100644
--- a/src/naima/sherpa_models.py
+++ b/src/naima/sherpa_models.py
@@ -41,8 +41,16 @@ class SherpaModel(ArithmeticModel):
         modflux = trapz_loglog(model, xlo)
         self.ampl.set(self.ampl.val * obsflux / modflux)
 
-    @modelCacher1d
     def calc(self, p, x, xhi=None):
+        # Sherpa builds the cache key from the plain bytes of the positional
+        # arguments: give xhi by keyword so that bins are never taken for the
+        # points with the same sequence of values
+        if xhi is None:
+            return self._calc(p, x)
+        return self._calc(p, x, xhi=xhi)
+
+    @modelCacher1d
+    def _calc(self, p, x, xhi=None):
         # Sherpa provides xlo, xhi in KeV, we merge into a single array if bins
         # required
         if xhi is None:
-- 
2.43.0


From 16dac00092113edab9ff3109959c0e4e409b353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 38/44] fix: residual plots took data and model energies as
 equal in any unit

np.allclose compared numbers in different units, and its absolute
tolerance made all energies that are small numbers in their unit equal,
so the model was not interpolated to the data.
---
 src/naima/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 902d331..fca9fb3 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1146,8 +1146,9 @@ def _plot_residuals_to_ax(
     ax.axhline(0, color="k", lw=1, ls="--")
 
     interp = False
+    # no absolute tolerance: the energies can be small numbers in their unit
     if data_all["energy"].size != MLene.size or not np.allclose(
-        data_all["energy"].value, MLene.value
+        data_all["energy"].to(e_unit).value, MLene.value, atol=0
     ):
         interp = True
         from scipy.interpolate import interp1d
-- 
2.43.0


From 2bed89930f99c53858617143bf81f2c78322686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 39/44] fix: evaluating models in threads changed the session's
 warning filters

warnings.catch_warnings is not safe with threads: two overlapping
evaluations could leave all warnings of the session ignored, or fail
with a warning they meant to ignore when warnings are errors. Ignore the
numerical warnings of numpy for the running thread only, and let quad
return its messages.
---
 src/naima/model_utils.py | 10 +---------
 src/naima/radiative.py   | 37 +++++++++++++++++++++++--------------
 src/naima/utils.py       |  4 +---
 3 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index c8f776a..aa2b38e 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -2,16 +2,10 @@
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
 import copy
 import hashlib
-import warnings
 
 import numpy as np
 from astropy import units as u
 
-try:
-    from numpy.exceptions import VisibleDeprecationWarning
-except ImportError:  # numpy < 1.25
-    from numpy import VisibleDeprecationWarning
-
 
 def _exact_repr(value):
     """Unambiguous string for a value: equal strings mean equal values.
@@ -80,9 +74,7 @@ def memoize(func):
             # Allow for dicts or tables with energy column, Quantity array or
             # Quantity scalar
             try:
-                with warnings.catch_warnings():
-                    warnings.simplefilter("ignore", VisibleDeprecationWarning)
-                    energy = u.Quantity(energy["energy"])
+                energy = u.Quantity(energy["energy"])
             except (TypeError, ValueError, IndexError):
                 pass
 
diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 2c99e52..fa4b414 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -662,8 +662,7 @@ class InverseCompton(BaseElectron):
         Eph = (outspecene / mec2).decompose().value
         # Catch numpy RuntimeWarnings of overflowing exp (which are then
         # discarded anyway)
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(all="ignore"):
             if self.seed_photon_fields[seed]["type"] == "thermal":
                 T = self.seed_photon_fields[seed]["T"]
                 uf = (self.seed_photon_fields[seed]["u"] / (ar * T**4)).decompose()
@@ -929,14 +928,12 @@ class Bremsstrahlung(BaseElectron):
         # Non relativistic below 2 MeV
         if np.any(gam <= gam_trans):
             nr_matrix = np.where(gam * np.ones_like(gam * eps) <= gam_trans)
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore")
+            with np.errstate(all="ignore"):
                 sigma[nr_matrix] = self._sigma_ee_nonrel(gam, eps)[nr_matrix]
         # Relativistic above 2 MeV
         if np.any(gam > gam_trans):
             rel_matrix = np.where(gam * np.ones_like(gam * eps) > gam_trans)
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore")
+            with np.errstate(all="ignore"):
                 sigma[rel_matrix] = self._sigma_ee_rel(gam, eps)[rel_matrix]
 
         return sigma.to(u.cm**2 / Eph.unit)
@@ -947,8 +944,7 @@ class Bremsstrahlung(BaseElectron):
         Eph > 10 MeV
         ToDo: add complete e-p cross-section
         """
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(all="ignore"):
             return self._sigma_1(gam, eps)
 
     def _emiss_ee(self, Eph):
@@ -1700,6 +1696,7 @@ class PionDecayKelner06(BaseRadiative):
                 args=Egamma,
                 epsrel=1e-3,
                 epsabs=0,
+                full_output=True,
             )[0]
         )
 
@@ -1731,7 +1728,15 @@ class PionDecayKelner06(BaseRadiative):
         Epimin = Egamma + self._m_pi**2 / (4 * Egamma)
 
         result = (
-            2 * quad(self._delta_integrand, Epimin, np.inf, epsrel=1e-3, epsabs=0)[0]
+            2
+            * quad(
+                self._delta_integrand,
+                Epimin,
+                np.inf,
+                epsrel=1e-3,
+                epsabs=0,
+                full_output=True,
+            )[0]
         )
 
         return result * u.Unit("1/(s TeV)")
@@ -1743,9 +1748,14 @@ class PionDecayKelner06(BaseRadiative):
 
         Eth = 1.22e-3
 
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            Wp = quad(lambda x: x * self._particle_distribution(x), Eth, np.inf)[0]
+        with np.errstate(all="ignore"):
+            # full_output keeps quad from issuing warnings
+            Wp = quad(
+                lambda x: x * self._particle_distribution(x),
+                Eth,
+                np.inf,
+                full_output=True,
+            )[0]
 
         return (Wp * u.TeV).to("erg")
 
@@ -1764,8 +1774,7 @@ class PionDecayKelner06(BaseRadiative):
 
         outspecene = _validate_ene(photon_energy)
 
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(all="ignore"):
             nhat = 1.0  # initial value, works for index~2.1
             if np.any(outspecene < self.Etrans) and np.any(outspecene >= self.Etrans):
                 # compute value of nhat so that delta functional matches
diff --git a/src/naima/utils.py b/src/naima/utils.py
index 750183a..93c1d2c 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -1,7 +1,6 @@
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
 
 import ast
-import warnings
 
 import astropy.units as u
 import numpy as np
@@ -335,8 +334,7 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
         shape[axis] = x.shape[0]
         x = x.reshape(shape)
 
-    with warnings.catch_warnings():
-        warnings.simplefilter("ignore")
+    with np.errstate(all="ignore"):
         # Compute the power law indices in each integration bin
         b = np.log10(y[slice2] / y[slice1]) / np.log10(x[slice2] / x[slice1])
 
-- 
2.43.0


From 11ccd7d0e38159b9a37105bf9e34578b94b2a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:53 +0000
Subject: [PATCH 40/44] fix: plot_data accepts the documented dict of data
 columns

---
 src/naima/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index fca9fb3..b3ae4ba 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -4,6 +4,7 @@ from multiprocessing import Pool
 import astropy.units as u
 import numpy as np
 from astropy import log
+from astropy.table import QTable
 from emcee import autocorr
 
 from .extern.validator import validate_array
@@ -1253,7 +1254,7 @@ def plot_data(
         if hasattr(input_data, "data"):
             data = input_data.data
         elif isinstance(input_data, dict) and "energy" in input_data.keys():
-            data = input_data
+            data = QTable(input_data)
         else:
             log.warning(
                 "input_data format unknown, no plotting data! "
-- 
2.43.0


From bccca4589370119d033b5787ab850ff66dd43e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:59 +0000
Subject: [PATCH 41/44] fix: plot_data uses the energy unit of the plot it adds
 data to

---
 src/naima/plot.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index b3ae4ba..7889355 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1273,10 +1273,19 @@ def plot_data(
         ax1 = f.add_subplot(111)
 
     # try to get units from previous plot in figure
-    try:
-        old_e_unit = u.Unit(ax1.get_xlabel().split("[")[-1].split("]")[0])
-    except ValueError:
-        old_e_unit = u.Unit("")
+    old_e_unit = u.Unit("")
+    # the label can be in the residuals panel, which shares the energy axis
+    for ax in ax1.get_shared_x_axes().get_siblings(ax1):
+        label = ax.get_xlabel().split("[")[-1].split("]")[0]
+        if label.startswith(r"$\mathrm{") and label.endswith("}$"):
+            # format of the labels set here and in plot_fit
+            label = label[len(r"$\mathrm{") : -len("}$")]
+        try:
+            label_unit = u.Unit(label)
+        except ValueError:
+            continue
+        if label_unit.physical_type == "energy":
+            old_e_unit = label_unit
 
     if e_unit is None and old_e_unit.physical_type == "energy":
         e_unit = old_e_unit
-- 
2.43.0


From 00ae6a86d442630160f9178936e0273758715fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:13 +0000
Subject: [PATCH 42/44] fix: keep units with a scale and user-defined units
 exact in saved runs

---
 src/naima/analysis.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index c8d9571..7d361fa 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -439,6 +439,26 @@ def save_run(filename, sampler, compression=True, clobber=False):
             os.remove(tmpname)
 
 
+def _unit_text(unit):
+    """Text from which exactly this unit is recovered.
+
+    In general `to_string` is not enough: it rounds the scale of units, and gives
+    only the name of units defined by the user.
+    """
+    candidates = [unit.to_string()]
+    if isinstance(unit, u.UnitBase):
+        for x in (unit, unit.decompose()):
+            base = u.CompositeUnit(1, x.bases, x.powers).to_string(fraction=False)
+            candidates.append("{0!r} {1}".format(float(x.scale), base).strip())
+    for text in candidates:
+        try:
+            if u.Unit(text).to(unit) == 1.0:
+                return text
+        except ValueError:
+            continue
+    return candidates[0]
+
+
 def _write_run(filename, sampler, compression):
     """Write the contents of sampler to a new hdf5 file"""
 
@@ -456,7 +476,7 @@ def _write_run(filename, sampler, compression):
         for idx, item in enumerate(blob):
             if isinstance(item, u.Quantity):
                 # scalar or array quantity
-                units = [item.unit.to_string()]
+                units = [_unit_text(item.unit)]
             elif isinstance(item, float):
                 units = [""]
             elif (isinstance(item, tuple) or isinstance(item, list)) and np.all(
@@ -465,7 +485,7 @@ def _write_run(filename, sampler, compression):
                 units = []
                 for x in item:
                     if isinstance(x, u.Quantity):
-                        units.append(x.unit.to_string())
+                        units.append(_unit_text(x.unit))
                     else:
                         units.append("")
             else:
@@ -508,8 +528,16 @@ def _write_run(filename, sampler, compression):
             else:
                 blobdataset.attrs["unit"] = units[0]
 
+        data = sampler.data.copy()
+        for name in data.colnames:
+            unit = data[name].unit
+            if unit is not None and _unit_text(unit) != unit.to_string():
+                # the table would be stored with the inexact text of the unit
+                unit = u.Unit(_unit_text(unit))
+                data[name] = data[name].to(u.CompositeUnit(1, unit.bases, unit.powers))
+
         write_table_hdf5(
-            sampler.data,
+            data,
             group,
             path="data",
             serialize_meta=True,
-- 
2.43.0


From f38225a82aafde00cbad0a928b26b5f7fc0876c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:13 +0000
Subject: [PATCH 43/44] fix: likelihood search from parameters given as whole
 numbers

---
 src/naima/extern/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/extern/minimize.py b/src/naima/extern/minimize.py
index a4ebaeb..6d20316 100644
--- a/src/naima/extern/minimize.py
+++ b/src/naima/extern/minimize.py
@@ -77,7 +77,8 @@ def _minimize_neldermead(
     retall = return_all
 
     fcalls, func = wrap_function(func, args)
-    x0 = asarray(x0).flatten()
+    # whole numbers would truncate all vertices of the simplex
+    x0 = asarray(x0, dtype=float).flatten()
     N = len(x0)
     rank = len(x0.shape)
     if not -1 < rank < 2:
-- 
2.43.0


From 69a42e6832c589b409dbdc0931a9019b43cfa5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:13 +0000
Subject: [PATCH 44/44] fix: normalisation guess for logarithms whose label has
 capital letters

---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 9efb5fa..c8c710c 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -430,9 +430,9 @@ def get_sampler(
                 data["energy"],
             )
             ratio = dataFlux / currFlux
-            if labels[idxs[0]].startswith("log("):
+            if labels[idxs[0]].lower().startswith("log("):
                 p0[idxs[0]] += np.log(ratio)
-            elif labels[idxs[0]].startswith("log10("):
+            elif labels[idxs[0]].lower().startswith("log10("):
                 p0[idxs[0]] += np.log10(ratio)
             else:
                 p0[idxs[0]] *= ratio
-- 
2.43.0

