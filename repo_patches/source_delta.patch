From 643e6c911b98f7f3c13049505405cb9e155a4767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 01/79] fix: draw evaluation-time randomness in
 simulate_lightcurves from the caller's generator

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 37b39bb..7689af6 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -193,7 +193,7 @@ def simulate_lightcurves(
 
             # Compute the bandfluxes and errors over just the given filters.
             bandfluxes_perfect = model.evaluate_bandfluxes(
-                passbands[survey_idx], obs_times, obs_filters, state
+                passbands[survey_idx], obs_times, obs_filters, state, rng_info=rng
             )
             bandfluxes_error = obstable[survey_idx].bandflux_error_point_source(bandfluxes_perfect, obs_index)
             bandfluxes = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng)
-- 
2.43.0


From 39b0c9d19271a84aaf224723e2ce991720b4a4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 02/79] fix: DistributionSampler draws from the caller's
 generator when one is given

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index 9c27e6c..f57de19 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -94,7 +94,8 @@ class DistributionSampler(FunctionNode):
 
         # Draw samples of the CDF [0, 1] and then use the inverse CDF spline to map those
         # back to the corresponding x values.
-        cdf_points = self._rng.random(num_samples)
+        rng = rng_info if rng_info is not None else self._rng
+        cdf_points = rng.random(num_samples)
         x_samples = self._inv_cdf(cdf_points)
         self._save_results(x_samples, graph_state)
         return x_samples
-- 
2.43.0


From 5b1f3cc666a43858fd72e24b3e9cd2782db9785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 03/79] fix: DistributionSampler no longer raises for draws
 below its first CDF sample

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index f57de19..5ad86b4 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -55,7 +55,8 @@ class DistributionSampler(FunctionNode):
         # of the inverse CDF function.
         cdf_samples = np.cumsum(y)
         cdf_samples /= cdf_samples[-1]
-        self._inv_cdf = interp1d(cdf_samples, x, kind=kind, fill_value=0.0)
+        # Draws below the first CDF sample map to the first x value (interp1d would raise otherwise).
+        self._inv_cdf = interp1d(cdf_samples, x, kind=kind, bounds_error=False, fill_value=(x[0], x[-1]))
 
     def set_seed(self, new_seed):
         """Update the random number generator's seed to a given value.
-- 
2.43.0


From 2ca6a7414f70bdff970bc42c1486ca53d51c7446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 04/79] fix: models with extra keyword parameters can be built
 with a redshift and a cosmology

---
 src/lightcurvelynx/models/physical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 2754ca7..1724285 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -83,7 +83,7 @@ class BasePhysicalModel(ParameterizedNode, ABC):
         if distance is not None:
             self.add_parameter("distance", distance, allow_gradient=False)
         elif redshift is not None and kwargs.get("cosmology") is not None:
-            self._redshift_func = RedshiftDistFunc(redshift=self.redshift, **kwargs)
+            self._redshift_func = RedshiftDistFunc(redshift=self.redshift, cosmology=kwargs["cosmology"])
             self.add_parameter("distance", self._redshift_func, allow_gradient=False)
         else:
             self.add_parameter("distance", None, allow_gradient=False)
-- 
2.43.0


From 43d5f9f3c8cb5d19c273105f169b8beba0ee2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 05/79] fix: band-flux evaluation accepts list (including empty
 list) times for every model

---
 src/lightcurvelynx/models/physical_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 1724285..65a15ef 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -203,6 +203,7 @@ class BasePhysicalModel(ParameterizedNode, ABC):
         if filters is None:
             raise ValueError("If passband_or_group is a PassbandGroup, filters must be provided.")
         filters = np.asarray(filters)
+        times = np.asarray(times)
         if len(filters) != len(times):
             raise ValueError("Filters array must have the same length as times array.")
 
-- 
2.43.0


From c164a574ae6ead72199b205b36bf08d56dbec44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 06/79] fix: SNCoordGivenPhysicalSep draws from the given or
 its own seeded generator, not numpy's global state

---
 src/lightcurvelynx/astro_utils/snia_utils.py | 60 ++++++++++++++++++--
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/snia_utils.py b/src/lightcurvelynx/astro_utils/snia_utils.py
index 3f22571..89acd4f 100644
--- a/src/lightcurvelynx/astro_utils/snia_utils.py
+++ b/src/lightcurvelynx/astro_utils/snia_utils.py
@@ -1,3 +1,5 @@
+from os import urandom
+
 import astropy.units as u
 import numpy as np
 import scipy.integrate as integrate
@@ -343,11 +345,21 @@ class SNCoordGivenPhysicalSep(FunctionNode):
         The Hubble constant.
     Omega_m : constant
         The matter density Omega_m.
+    seed : int, optional
+        The seed to use for the node's own random number generator.
     **kwargs : dict, optional
         Any additional keyword arguments.
     """
 
-    def __init__(self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, **kwargs):
+    def __init__(
+        self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, seed=None, **kwargs
+    ):
+        # Get a default random number generator for this object, using the
+        # given seed if one is provided.
+        if seed is None:
+            seed = int.from_bytes(urandom(4), "big")
+        self._rng = np.random.default_rng(seed=seed)
+
         # Create the cosmology once for this node.
         if not isinstance(H0, float) or not isinstance(Omega_m, float):
             raise ValueError("H0 and Omega_m must be constants.")
@@ -364,6 +376,40 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             **kwargs,
         )
 
+    def set_seed(self, new_seed):
+        """Update the random number generator's seed to a given value.
+
+        Parameters
+        ----------
+        new_seed : int
+            The given seed
+        """
+        self._rng = np.random.default_rng(seed=new_seed)
+
+    def compute(self, graph_state, rng_info=None, **kwargs):
+        """Sample the SN coordinates.
+
+        Parameters
+        ----------
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
+        **kwargs : dict, optional
+            Additional function arguments.
+
+        Returns
+        -------
+        results : tuple
+            The RA and dec values (in degrees).
+        """
+        args = self._build_inputs(graph_state, **kwargs)
+        results = self._sn_coord(**args, rng_info=rng_info)
+        self._save_results(results, graph_state)
+        return results
+
     def _host_sn_angular_separation(self, physical_sep_kpc, redshift):
         """
         Function for calculating host-sn angular separation.
@@ -386,7 +432,7 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         return angular_sep_rad
 
-    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift):
+    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift, rng_info=None):
         """
         Function to generate SN coordinates given the host coordinates and angular separation.
 
@@ -400,6 +446,9 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             The physical host-sn separation(s) in kpc.
         redshift : float or numpy.ndarray
             The redshift to convert physical separation to angular separation.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
 
         Returns
         -------
@@ -409,11 +458,12 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             SN DEC values (in degrees).
         """
 
-        self.angular_sep_rad = self._host_sn_angular_separation(physical_sep_kpc, redshift)
+        rng = rng_info if rng_info is not None else self._rng
+        angular_sep_rad = self._host_sn_angular_separation(physical_sep_kpc, redshift)
         center = SkyCoord(host_ra * u.deg, host_dec * u.deg, frame="icrs")
-        rand_pa = 2 * np.pi * np.random.random(center.size) * u.rad  # random position angle
+        rand_pa = 2 * np.pi * rng.random(center.size) * u.rad  # random position angle
 
-        sn_coord = center.directional_offset_by(rand_pa, self.angular_sep_rad)
+        sn_coord = center.directional_offset_by(rand_pa, angular_sep_rad)
         ra = sn_coord.ra.deg
         dec = sn_coord.dec.deg
 
-- 
2.43.0


From b048c8691970485c366bdb7210b4411ad42b9f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 07/79] fix: AGN spectra draw from the caller's generator when
 one is given

---
 src/lightcurvelynx/models/agn.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 8ad18ba..19d9130 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -478,7 +478,14 @@ class AGN(SEDModel):
         G = constants.G.cgs.value
         return 2 ** (3 / 4) * (3 / 7) ** (7 / 4) * (G * M * Mdot / (np.pi * sigma_sb * r_in**3)) ** (1 / 4)
 
-    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
+    def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
+        """Evaluate the model for a single graph state. The spectrum itself is random, so the given
+        generator is passed on to compute_sed(). See SEDModel._evaluate_single() for the arguments.
+        """
+        kwargs["sed_rng"] = rng_info
+        return super()._evaluate_single(times, wavelengths, state, rng_info=rng_info, **kwargs)
+
+    def compute_sed(self, times, wavelengths, graph_state, sed_rng=None, **kwargs):
         """Draw effect-free observations for this object.
 
         Parameters
@@ -489,6 +496,8 @@ class AGN(SEDModel):
             A length N array of wavelengths (in angstroms).
         graph_state : `GraphState`
             An object mapping graph parameters to their values.
+        sed_rng : `numpy.random.Generator`, optional
+            The random number generator to use. If not provided, uses the object's generator.
         **kwargs : `dict`, optional
             Any additional keyword arguments.
 
@@ -523,7 +532,7 @@ class AGN(SEDModel):
             tau_v,
             sf_inf,
             params["t0"],
-            rng=self._rng,
+            rng=sed_rng if sed_rng is not None else self._rng,
         )
 
         flux_density = 10 ** (-0.4 * delta_m) * fnu_average
-- 
2.43.0


From 7ff903408fe598c5c1e93c70f45476d65ef7d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 08/79] fix: the AGN seed also covers its inclination sampler

---
 src/lightcurvelynx/models/agn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 19d9130..8df0b55 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -119,7 +119,12 @@ class AGN(SEDModel):
         # Add the parameters for the AGN. t0 already set in BasePhysicalModel.
         self.add_parameter("blackhole_mass", blackhole_mass, **kwargs)
         self.add_parameter("edd_ratio", edd_ratio, **kwargs)
-        self.add_parameter("inclination_rad", NumpyRandomFunc("uniform", low=0, high=np.pi / 2.0), **kwargs)
+        self.add_parameter(
+            "inclination_rad",
+            # Offset the seed so the inclination is independent of the random walk's draws.
+            NumpyRandomFunc("uniform", low=0, high=np.pi / 2.0, seed=None if seed is None else seed + 1),
+            **kwargs,
+        )
 
         # Add the derived parameters using FunctionNodes built from the object's static methods.
         # Each of these will be computed for each sample value of the input parameters.
-- 
2.43.0


From 712e77fc72c462c27e4de1fccea15d8324b79f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 09/79] fix: sncosmo models with a redshift and a cosmology can
 be sampled

---
 src/lightcurvelynx/models/sncomso_models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/sncomso_models.py b/src/lightcurvelynx/models/sncomso_models.py
index 37a664d..cb04186 100644
--- a/src/lightcurvelynx/models/sncomso_models.py
+++ b/src/lightcurvelynx/models/sncomso_models.py
@@ -203,8 +203,12 @@ class SncosmoWrapperModel(SEDModel, CiteClass):
         ------
         Raise a ValueError the sampling encounters a problem with the order of dependencies.
         """
+        # This node can be reached again while its own parameters are still being sampled (e.g. by a
+        # distance that depends on its redshift), so only the outermost visit updates the source.
+        first_visit = str(self) not in seen_nodes
         super()._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
-        self._update_sncosmo_model_parameters(graph_state)
+        if first_visit:
+            self._update_sncosmo_model_parameters(graph_state)
 
     def mask_by_time(self, times, graph_state=None):
         """Compute a mask for whether a given time is of interest for a given object.
-- 
2.43.0


From 4bc6ce56c7ee3a07612333c2e7a8937666e85408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 10/79] fix: sncosmo spectra do not depend on parameters other
 callers set on the shared source

---
 src/lightcurvelynx/models/sncomso_models.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/lightcurvelynx/models/sncomso_models.py b/src/lightcurvelynx/models/sncomso_models.py
index cb04186..cae2079 100644
--- a/src/lightcurvelynx/models/sncomso_models.py
+++ b/src/lightcurvelynx/models/sncomso_models.py
@@ -4,6 +4,8 @@ https://github.com/sncosmo/sncosmo/blob/v2.10.1/sncosmo/models.py
 https://sncosmo.readthedocs.io/en/stable/models.html
 """
 
+from copy import copy
+
 import numpy as np
 from astropy import units as u
 from citation_compass import CiteClass
@@ -136,13 +138,14 @@ class SncosmoWrapperModel(SEDModel, CiteClass):
         """
         return self.source.maxwave()
 
+    def _get_sncosmo_params(self, graph_state):
+        """Get the parameters of the wrapped sncosmo model from the graph state."""
+        local_params = graph_state.get_node_state(self.node_string, 0)
+        return {name: local_params[name] for name in self.source_param_names}
+
     def _update_sncosmo_model_parameters(self, graph_state):
         """Update the parameters for the wrapped sncosmo model."""
-        local_params = graph_state.get_node_state(self.node_string, 0)
-        sn_params = {}
-        for name in self.source_param_names:
-            sn_params[name] = local_params[name]
-        self.source.set(**sn_params)
+        self.source.set(**self._get_sncosmo_params(graph_state))
 
     def get(self, name):
         """Get the value of a specific parameter.
@@ -264,15 +267,17 @@ class SncosmoWrapperModel(SEDModel, CiteClass):
             A length T x N matrix of SED values (in nJy).
         """
         params = self.get_local_params(graph_state)
-        self._update_sncosmo_model_parameters(graph_state)
 
         # sncosmo gives an error if the wavelengths are out of bounds, so we need to use
         # extrapolation if the wavelengths are out of bounds.
         if np.any(wavelengths < self.source.minwave()) or np.any(wavelengths > self.source.maxwave()):
             return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
 
-        # Query the model and convert the output to nJy.
-        model_flam = self.source.flux(times - params["t0"], wavelengths)
+        # Query the model and convert the output to nJy. The parameters are set on a private copy,
+        # because the wrapped source is shared by all callers of this model.
+        source = copy(self.source)
+        source.set(**self._get_sncosmo_params(graph_state))
+        model_flam = source.flux(times - params["t0"], wavelengths)
         model_fnu = flam_to_fnu(
             model_flam,
             wavelengths,
-- 
2.43.0


From 9a7a25a145a1e27de8bacdc0f66802e5c796e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 11/79] fix: SncosmoWrapperModel no longer sets parameters on
 the caller's source object

---
 src/lightcurvelynx/models/sncomso_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/sncomso_models.py b/src/lightcurvelynx/models/sncomso_models.py
index cae2079..9e56f96 100644
--- a/src/lightcurvelynx/models/sncomso_models.py
+++ b/src/lightcurvelynx/models/sncomso_models.py
@@ -84,7 +84,7 @@ class SncosmoWrapperModel(SEDModel, CiteClass):
             **kwargs,
         )
         self.source_name = source_name
-        self.source = get_source(source_name)
+        self.source = get_source(source_name, copy=True)
 
         # Use the kwargs to initialize the sncosmo model's parameters.
         self.source_param_names = []
-- 
2.43.0


From c5fab047853dec98a2157abebb4deb84e6d29911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 12/79] fix: BilbyPriorNode draws from the given or its own
 seeded generator, not Bilby's global one

---
 src/lightcurvelynx/math_nodes/bilby_priors.py | 58 +++++++++++++++----
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/bilby_priors.py b/src/lightcurvelynx/math_nodes/bilby_priors.py
index 2dc6564..df0dea3 100644
--- a/src/lightcurvelynx/math_nodes/bilby_priors.py
+++ b/src/lightcurvelynx/math_nodes/bilby_priors.py
@@ -1,9 +1,15 @@
 """Wrapper classes for sampling from Bilby's prior module."""
 
+import threading
+
+import numpy as np
 from citation_compass import CiteClass
 
 from lightcurvelynx.base_models import FunctionNode
 
+# Guards the replacement of Bilby's (process-wide) random number generator.
+_BILBY_RNG_LOCK = threading.Lock()
+
 
 class BilbyPriorNode(FunctionNode, CiteClass):
     """The base class for sampling from Bilby's prior module.
@@ -22,10 +28,9 @@ class BilbyPriorNode(FunctionNode, CiteClass):
 
     Note
     ----
-    The BilbyPriorNode's `compute()` function does not use the random number generator passed to it.
-    Rather it uses Bilby's internal random number generator. You can set the seed for this using
-    the `seed` argument when initializing the node or by calling the `set_seed` method. However,
-    you cannot control the samples from this node via a simulation-wide random number generator.
+    Bilby priors draw from Bilby's internal (process-wide) random number generator. The BilbyPriorNode's
+    `compute()` function replaces it with the generator passed to it, or with the node's own generator
+    (if the node was given a seed), for the duration of the draw.
 
     References
     ----------
@@ -45,6 +50,7 @@ class BilbyPriorNode(FunctionNode, CiteClass):
     """
 
     def __init__(self, prior, seed=None, **kwargs):
+        self._rng = None
         if seed is not None:
             self.set_seed(seed)
 
@@ -75,15 +81,44 @@ class BilbyPriorNode(FunctionNode, CiteClass):
         new_seed : int
             The given seed
         """
-        # Import bilby to set the seed.
+        self._rng = np.random.default_rng(seed=new_seed)
+
+    def _sample_prior(self, num_samples, rng):
+        """Sample the prior with a given random number generator.
+
+        Bilby priors always draw from Bilby's internal generator, so it is replaced for
+        the duration of the call.
+
+        Parameters
+        ----------
+        num_samples : int
+            The number of samples to draw.
+        rng : numpy.random._generator.Generator or None
+            The random number generator to use. If None uses Bilby's internal generator.
+
+        Returns
+        -------
+        dict
+            A dictionary mapping the parameter names to their sampled values.
+        """
+        if rng is None:
+            return self.prior.sample(num_samples)
+
         try:
-            from bilby.core.utils import random as bibly_random
+            from bilby.core.utils.random import Generator
         except ImportError as err:
             raise ImportError(
                 "Bilby package is not installed be default. To use the bilby priors, "
                 "please install it. For example, you can install it with `pip install bilby`."
             ) from err
-        bibly_random.seed(new_seed)
+
+        with _BILBY_RNG_LOCK:
+            saved_rng = Generator.rng
+            try:
+                Generator.rng = rng
+                return self.prior.sample(num_samples)
+            finally:
+                Generator.rng = saved_rng
 
     def compute(self, graph_state, rng_info=None, **kwargs):
         """Sample from the wrapped prior.
@@ -97,9 +132,9 @@ class BilbyPriorNode(FunctionNode, CiteClass):
             An object mapping graph parameters to their values. This object is modified
             in place as it is sampled.
         rng_info : numpy.random._generator.Generator, optional
-            This random number generator is not used by this node. Instead, Bilby's internal
-            random number generator is used. You can set the seed for this using the `seed`
-            argument when initializing the node or by calling the `set_seed()` method.
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator (if the node was
+            given a seed) or Bilby's internal random number generator (otherwise).
         **kwargs : dict, optional
             Additional function arguments.
 
@@ -114,7 +149,8 @@ class BilbyPriorNode(FunctionNode, CiteClass):
         ValueError is func attribute is None.
         """
         # Sample from the Bilby prior model and extract the parameters from the dictionary.
-        param_dict = self.prior.sample(graph_state.num_samples)
+        rng = rng_info if rng_info is not None else self._rng
+        param_dict = self._sample_prior(graph_state.num_samples, rng)
         results = []
         for key in self.outputs:
             values = param_dict[key]
-- 
2.43.0


From 795e73b4bff55c51ea3ea47cc9081c23d6356f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 13/79] fix: PZFlowNode with conditional inputs can draw a
 single sample

---
 src/lightcurvelynx/astro_utils/pzflow_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/pzflow_node.py b/src/lightcurvelynx/astro_utils/pzflow_node.py
index 58e2ced..ce02816 100644
--- a/src/lightcurvelynx/astro_utils/pzflow_node.py
+++ b/src/lightcurvelynx/astro_utils/pzflow_node.py
@@ -101,7 +101,7 @@ class PZFlowNode(FunctionNode, CiteClass):
             all_params = self.get_local_params(graph_state)
             input_params = {}
             for col in self.conditional_cols:
-                input_params[col] = all_params[col]
+                input_params[col] = np.atleast_1d(all_params[col])
             input_df = pd.DataFrame(input_params)
 
             samples = self.flow.sample(1, conditions=input_df, seed=seed)
-- 
2.43.0


From c9937eee243c440e89cb163ba54c0fd487fee50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 14/79] fix: graph positions are published only once the whole
 graph is named

---
 src/lightcurvelynx/base_models.py             | 47 ++++++++++++++-----
 .../models/multi_object_model.py              | 19 ++++----
 2 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/src/lightcurvelynx/base_models.py b/src/lightcurvelynx/base_models.py
index ffcbf26..b59f303 100644
--- a/src/lightcurvelynx/base_models.py
+++ b/src/lightcurvelynx/base_models.py
@@ -213,7 +213,7 @@ class ParameterizedNode:
         """Return the string representation of the node."""
         return self.node_string
 
-    def _update_node_string(self, new_str=None):
+    def _update_node_string(self, new_str=None, node_pos=None):
         """Update the node's string.
 
         Parameters
@@ -221,7 +221,12 @@ class ParameterizedNode:
         new_str : str, optional
             The new node string. If not provided, the node_string
             is automatically computed from the other node information.
+        node_pos : int, optional
+            The position in the graph to use. If not provided, uses the node's
+            current position.
         """
+        if node_pos is None:
+            node_pos = self.node_pos
         if self.node_label is not None:
             # If a label is given, just use that. It overrides even the new_str.
             self.node_string = self.node_label
@@ -229,7 +234,7 @@ class ParameterizedNode:
             self.node_string = new_str
         else:
             # Otherwise use a combination of the node's class and position.
-            pos_string = f"_{self.node_pos}" if self.node_pos is not None else ""
+            pos_string = f"_{node_pos}" if node_pos is not None else ""
             self.node_string = f"{self.__class__.__name__}{pos_string}"
 
         # Update the node_name of all node's parameter setters.
@@ -245,21 +250,39 @@ class ParameterizedNode:
             A set of nodes that have already been processed to prevent infinite loops.
             Caller should not set.
         """
-        # Make sure that we do not process the same nodes multiple times.
         if seen_nodes is None:
             seen_nodes = set()
+        nodes = []
+        self._collect_graph_nodes(seen_nodes, nodes)
+
+        # Update each node's string and then its position. This node comes last, because its position
+        # tells other callers (and later calls, if this one is interrupted) that all names are final.
+        first_pos = len(seen_nodes) - len(nodes)
+        for idx in reversed(range(len(nodes))):
+            nodes[idx]._update_node_string(node_pos=first_pos + idx)
+            nodes[idx].node_pos = first_pos + idx
+
+    def _collect_graph_nodes(self, seen_nodes, nodes):
+        """List this node and the nodes it depends on in the order of their graph positions.
+
+        Parameters
+        ----------
+        seen_nodes : set
+            A set of nodes that have already been processed to prevent infinite loops.
+            This is modified in place by the function.
+        nodes : list
+            The nodes seen for the first time. This is modified in place by the function.
+        """
+        # Make sure that we do not process the same nodes multiple times.
         if self in seen_nodes:
             return
         seen_nodes.add(self)
+        nodes.append(self)
 
-        # Update the node's position in the graph and its string.
-        self.node_pos = len(seen_nodes) - 1
-        self._update_node_string()
-
-        # Recursively update any direct dependencies.
+        # Recursively list any direct dependencies.
         for setter_info in self.setters.values():
             if setter_info.dependency is not None and setter_info.dependency is not self:
-                setter_info.dependency.set_graph_positions(seen_nodes)
+                setter_info.dependency._collect_graph_nodes(seen_nodes, nodes)
 
     def list_params(self):
         """Return a list of this node's parameterized values.
@@ -848,12 +871,14 @@ class FunctionNode(ParameterizedNode):
         happens in an overloaded compute() function."""
         pass
 
-    def _update_node_string(self, new_str=None):
+    def _update_node_string(self, new_str=None, node_pos=None):
         """Update the node's string. A FunctionNode's string includes
         the function name in addition to the class name.
         """
         if new_str is None:
-            pos_string = f"_{self.node_pos}" if self.node_pos is not None else ""
+            if node_pos is None:
+                node_pos = self.node_pos
+            pos_string = f"_{node_pos}" if node_pos is not None else ""
             fn_str = f":{self.func.__name__}" if self.func is not None else ""
             new_str = f"{self.__class__.__name__}{fn_str}{pos_string}"
         super()._update_node_string(new_str)
diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2098781..2d47fa1 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -63,22 +63,21 @@ class MultiObjectModel(SEDModel):
         self.objects = objects
         self.num_objects = len(objects)
 
-    def set_graph_positions(self, seen_nodes=None):
-        """Force an update of the graph structure (numbering of each node).
+    def _collect_graph_nodes(self, seen_nodes, nodes):
+        """List this node and the nodes it depends on in the order of their graph positions.
 
         Parameters
         ----------
-        seen_nodes : set, optional
+        seen_nodes : set
             A set of nodes that have already been processed to prevent infinite loops.
-            Caller should not set.
+            This is modified in place by the function.
+        nodes : list
+            The nodes seen for the first time. This is modified in place by the function.
         """
-        if seen_nodes is None:
-            seen_nodes = set()
-
-        # Set the graph positions for this node and each object.
-        super().set_graph_positions(seen_nodes=seen_nodes)
+        # List this node (with its dependencies) and each object.
+        super()._collect_graph_nodes(seen_nodes, nodes)
         for object in self.objects:
-            object.set_graph_positions(seen_nodes=seen_nodes)
+            object._collect_graph_nodes(seen_nodes, nodes)
 
     def set_apply_redshift(self, apply_redshift):
         """Toggles the apply_redshift setting.
-- 
2.43.0


From b7fbdaf51bfe23bbfd1ff7abc77d248bfad6338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 15/79] fix: GivenValueSampler does not normalise the caller's
 weights in place

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index 8b7abba..59325b8 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -150,10 +150,10 @@ class GivenValueSampler(NumpyRandomFunc):
 
         # Compute the normalized weights for each value.
         if weights is not None:
-            self._weights = np.asarray(weights)
+            self._weights = np.asarray(weights, dtype=float)
             if len(self._weights) != self._num_values:
                 raise ValueError("Weights must match the number of values provided.")
-            self._weights /= np.sum(self._weights)
+            self._weights = self._weights / np.sum(self._weights)
         else:
             self._weights = None
 
-- 
2.43.0


From 78f42e235eb62e5060e47aba64b2c684b064ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 16/79] fix: a rejected add_parameter or set_parameter leaves
 the node as it was

---
 src/lightcurvelynx/base_models.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/base_models.py b/src/lightcurvelynx/base_models.py
index b59f303..66d7d70 100644
--- a/src/lightcurvelynx/base_models.py
+++ b/src/lightcurvelynx/base_models.py
@@ -407,10 +407,6 @@ class ParameterizedNode:
         ValueError
             If the setter type is not supported.
         """
-        # Set the node's position in the graph to None to indicate that the
-        # structure might have changed. It needs to be updated with set_graph_positions().
-        self.node_pos = None
-
         # Check for parameter has been added and if so, find the index. All parameters must
         # be added first with "add_parameter()".
         if name not in self.setters:
@@ -460,6 +456,10 @@ class ParameterizedNode:
             # Case 4: The value is constant (including None).
             self.setters[name].set_as_constant(value)
 
+        # Set the node's position in the graph to None to indicate that the
+        # structure might have changed. It needs to be updated with set_graph_positions().
+        self.node_pos = None
+
     def set_allow_gradient(self, name, allow_gradient):
         """Turn on or off the ability to compute a gradient for this variable.
 
@@ -519,7 +519,12 @@ class ParameterizedNode:
             source_type=ParameterSource.UNDEFINED,
             node_name=str(self),
         )
-        self.set_parameter(name, value, **kwargs)
+        try:
+            self.set_parameter(name, value, **kwargs)
+        except BaseException:
+            # Do not leave behind a parameter without a source.
+            del self.setters[name]
+            raise
 
         # Check if we should override allow_gradient.
         if allow_gradient is not None:
-- 
2.43.0


From 4cc31178b167f95f5270d5024500c436b175ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 17/79] fix: a rejected or interrupted add_effect leaves the
 model as it was

---
 .../models/multi_object_model.py              | 26 ++++++++---
 src/lightcurvelynx/models/physical_model.py   | 45 ++++++++++++++++---
 2 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2d47fa1..a9cfa90 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -100,17 +100,31 @@ class MultiObjectModel(SEDModel):
             The effect to add to the model.
         """
         if effect.rest_frame:
-            # The rest frame effects are applied to each object.
-            for object in self.objects:
-                object.add_effect(effect)
+            # The rest frame effects are applied to each object (all of them or none).
+            saved = self._save_effects()
+            try:
+                for object in self.objects:
+                    object.add_effect(effect)
+            except BaseException:
+                self._restore_effects(saved)
+                raise
         else:
             # Add observer frame effects to this model.
             # Add any effect parameters that are not already in the model.
-            for param_name, setter in effect.parameters.items():
-                if param_name not in self.setters:
-                    self.add_parameter(param_name, setter, allow_gradient=False)
+            self._add_effect_parameters(effect)
             self.obs_frame_effects.append(effect)
 
+    def _save_effects(self):
+        """Record the current parameters and effects of this model and its submodels."""
+        return super()._save_effects(), [object._save_effects() for object in self.objects]
+
+    def _restore_effects(self, saved):
+        """Undo everything that was added after the matching call to _save_effects()."""
+        saved_self, saved_objects = saved
+        super()._restore_effects(saved_self)
+        for object, saved_object in zip(self.objects, saved_objects, strict=True):
+            object._restore_effects(saved_object)
+
     def sample_parameters(self, given_args=None, num_samples=1, rng_info=None):
         """Sample the model's underlying parameters if they are provided by a function
         or ParameterizedModel.
diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 65a15ef..825b750 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -142,6 +142,35 @@ class BasePhysicalModel(ParameterizedNode, ABC):
         """
         raise NotImplementedError
 
+    def _effect_lists(self):
+        """The lists in which this model keeps its effects."""
+        return []
+
+    def _save_effects(self):
+        """Record the current parameters and effects for a later call to _restore_effects()."""
+        return list(self.setters), self.node_pos, [list(effects) for effects in self._effect_lists()]
+
+    def _restore_effects(self, saved):
+        """Undo everything that was added after the matching call to _save_effects()."""
+        param_names, node_pos, effect_lists = saved
+        for name in set(self.setters) - set(param_names):
+            del self.setters[name]
+            self.__dict__.pop(name, None)
+        self.node_pos = node_pos
+        for effects, saved_effects in zip(self._effect_lists(), effect_lists, strict=True):
+            effects[:] = saved_effects
+
+    def _add_effect_parameters(self, effect):
+        """Add any effect parameters that are not already in the model (all of them or none)."""
+        saved = self._save_effects()
+        try:
+            for param_name, setter in effect.parameters.items():
+                if param_name not in self.setters:
+                    self.add_parameter(param_name, setter, allow_gradient=False)
+        except BaseException:
+            self._restore_effects(saved)
+            raise
+
     def mask_by_time(self, times, graph_state=None):
         """Compute a mask for whether a given time is of interest for a given object.
         For example, a user can use this function to generate a mask to include
@@ -294,9 +323,7 @@ class SEDModel(BasePhysicalModel):
         """
         # Add any effect parameters that are not already in the model.
         if not skip_params:
-            for param_name, setter in effect.parameters.items():
-                if param_name not in self.setters:
-                    self.add_parameter(param_name, setter, allow_gradient=False)
+            self._add_effect_parameters(effect)
 
         # Add the effect to the appropriate list.
         if effect.rest_frame:
@@ -304,6 +331,10 @@ class SEDModel(BasePhysicalModel):
         else:
             self.obs_frame_effects.append(effect)
 
+    def _effect_lists(self):
+        """The lists in which this model keeps its effects."""
+        return [self.rest_frame_effects, self.obs_frame_effects]
+
     def list_effects(self):
         """Return a list of all effects in the order in which they are applied."""
         return self.rest_frame_effects + self.obs_frame_effects
@@ -608,13 +639,15 @@ class BandfluxModel(BasePhysicalModel, ABC):
         """
         # Add any effect parameters that are not already in the model.
         if not skip_params:
-            for param_name, setter in effect.parameters.items():
-                if param_name not in self.setters:
-                    self.add_parameter(param_name, setter, allow_gradient=False)
+            self._add_effect_parameters(effect)
 
         # Add the effect to the band pass effects list.
         self.band_pass_effects.append(effect)
 
+    def _effect_lists(self):
+        """The lists in which this model keeps its effects."""
+        return [self.band_pass_effects]
+
     def list_effects(self):
         """Return a list of all effects in the order in which they are applied."""
         return self.band_pass_effects
-- 
2.43.0


From 05d1af0d50d8c8cfd54f86b184fccd4e23011838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 18/79] fix: a failed PassbandGroup update leaves the group and
 its members as they were

---
 src/lightcurvelynx/astro_utils/passbands.py | 53 ++++++++++++++-------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 7346a61..6a2af5e 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -434,21 +434,27 @@ class PassbandGroup:
         passband : Passband
             The passband to add to the group.
         """
-        self.passbands[passband.full_name] = passband
-        self._update_internal_data()
+        previous = self.passbands
+        self.passbands = {**previous, passband.full_name: passband}
+        try:
+            self._update_internal_data()
+        except BaseException:
+            self.passbands = previous
+            raise
 
     def _update_internal_data(self) -> None:
         """Update the cached internal data."""
         # Update the mapping of filter name to full_name.
-        self._filter_to_name = {}
+        filter_to_name = {}
         for full_name, pb_obj in self.passbands.items():
-            if pb_obj.filter_name in self._filter_to_name:
+            if pb_obj.filter_name in filter_to_name:
                 logger.info("Multiple passband objects detected for filter {pb_obj.filter_name}")
-                self._filter_to_name[pb_obj.filter_name].append(full_name)
+                filter_to_name[pb_obj.filter_name].append(full_name)
             else:
-                self._filter_to_name[pb_obj.filter_name] = [full_name]
+                filter_to_name[pb_obj.filter_name] = [full_name]
 
         self._update_waves()
+        self._filter_to_name = filter_to_name
 
     def _update_waves(self, threshold=1e-5) -> None:
         """Update the group's wave attribute to be the union of all wavelengths in
@@ -469,7 +475,7 @@ class PassbandGroup:
             Default: 1e-5
         """
         if len(self.passbands) == 0:
-            self.waves = np.array([])
+            waves = np.array([])
         else:
             # Compute the unique wavelengths (accounting for floating point error) by
             # sorting the union of all the waves, computing the gaps between each adjacent
@@ -478,25 +484,28 @@ class PassbandGroup:
             all_waves = np.concatenate([passband.waves for passband in self.passbands.values()])
             sorted_waves = np.sort(all_waves)
             gap_sizes = np.insert(sorted_waves[1:] - sorted_waves[:-1], 0, 1e8)
-            self.waves = sorted_waves[gap_sizes >= threshold]
+            waves = sorted_waves[gap_sizes >= threshold]
 
         # Update the mapping of each passband's wavelengths to the corresponding indices in the
         # unioned list of all wavelengths.
-        self._in_band_wave_indices = {}
+        in_band_wave_indices = {}
         for name, passband in self.passbands.items():
             # We only want the fluxes that are in the passband's wavelength range
             # So, find the indices in the group's wave grid that are in the passband's wave grid
             lower, upper = passband.waves[0], passband.waves[-1]
-            lower_index, upper_index = np.searchsorted(self.waves, [lower, upper])
+            lower_index, upper_index = np.searchsorted(waves, [lower, upper])
 
             # Check that this is the right grid after all (check will fail if passbands overlap and passbands
             # do not happen to be on the same phase of the grid; eg, even if the step is 10, if the first
             # passband starts at 100 and the second at 105, the passbands won't share the same grid)
-            if np.array_equal(self.waves[lower_index : upper_index + 1], passband.waves):
+            if np.array_equal(waves[lower_index : upper_index + 1], passband.waves):
                 indices = slice(lower_index, upper_index + 1)
             else:
-                indices = np.searchsorted(self.waves, passband.waves)
-            self._in_band_wave_indices[name] = indices
+                indices = np.searchsorted(waves, passband.waves)
+            in_band_wave_indices[name] = indices
+
+        self.waves = waves
+        self._in_band_wave_indices = in_band_wave_indices
 
     def wave_bounds(self):
         """Get the minimum and maximum wavelength for this group.
@@ -543,10 +552,20 @@ class PassbandGroup:
             The quantile to trim the transmission table by. For example, if trim_quantile is 1e-3, the
             transmission table will be trimmed to include only the central 99.8% of rows.
         """
-        for passband in self.passbands.values():
-            passband.process_transmission_table(delta_wave, trim_quantile)
-
-        self._update_internal_data()
+        previous = [
+            (pb, pb.processed_transmission_table, pb.waves, pb.delta_wave) for pb in self.passbands.values()
+        ]
+        try:
+            for passband in self.passbands.values():
+                passband.process_transmission_table(delta_wave, trim_quantile)
+
+            self._update_internal_data()
+        except BaseException:
+            for passband, table, waves, old_delta_wave in previous:
+                passband.processed_transmission_table = table
+                passband.waves = waves
+                passband.delta_wave = old_delta_wave
+            raise
 
     def fluxes_to_bandflux(self, flux_density_matrix: np.ndarray, filter: str) -> np.ndarray:
         """Calculate bandfluxes for a single passband in the group.
-- 
2.43.0


From 003a82cbec15f7954a186a1086c0e9e6abf2c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 19/79] fix: LightcurveData does not convert the caller's
 baseline in place (or a baseline nobody gave)

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index e98ff0e..24cd542 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -145,12 +145,11 @@ class LightcurveData:
             for filter in self.lightcurves:
                 if filter not in baseline:
                     raise ValueError(f"Baseline value for filter {filter} is missing.")
-            self.baseline = baseline
+            self.baseline = dict(baseline)
 
-        # Convert the baseline from magnitudes to fluxes if needed.
-        if magnitudes_in:
-            for filter in self.baseline:
-                self.baseline[filter] = mag2flux(self.baseline[filter])
+            # Convert the given baseline from magnitudes to fluxes if needed.
+            if magnitudes_in:
+                self.baseline = {filter: mag2flux(value) for filter, value in self.baseline.items()}
 
     def __len__(self):
         """Get the number of light curves."""
-- 
2.43.0


From 3633e8c2ad9a3ff90519fc94631bef9a6318c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 20/79] fix: a failed filter_rows leaves the survey table and
 its spatial index in step

---
 src/lightcurvelynx/obstable/obs_table.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index d0c658d..b7f4e27 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -465,9 +465,13 @@ class ObsTable:
             mask[rows] = True
 
         # Filter the rows in-place and build a new kd-tree.
+        previous = self._table
         self._table = self._table[mask]
-        self._kd_tree = None
-        self._build_kd_tree()
+        try:
+            self._build_kd_tree()
+        except BaseException:
+            self._table = previous
+            raise
 
         return self
 
-- 
2.43.0


From c41b67d89b2128e8954f11f76b7fbbf1505747c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 21/79] fix: array-valued random draws pair each sample with
 its own arguments

---
 src/lightcurvelynx/math_nodes/np_random.py | 25 ++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/np_random.py b/src/lightcurvelynx/math_nodes/np_random.py
index d81b04c..9ef8f7d 100644
--- a/src/lightcurvelynx/math_nodes/np_random.py
+++ b/src/lightcurvelynx/math_nodes/np_random.py
@@ -91,6 +91,28 @@ class NumpyRandomFunc(FunctionNode):
         self._rng = np.random.default_rng(seed=new_seed)
         self.func = getattr(self._rng, self.func_name)
 
+    @staticmethod
+    def _align_samples(value, size):
+        """Reshape an argument with one entry per sample so that its first dimension
+        lines up with the sample dimension of the (num_samples, *size) results.
+
+        Parameters
+        ----------
+        value : any
+            The argument's values with the samples along the first dimension.
+        size : tuple
+            The shape of the results (num_samples, *sample_size).
+
+        Returns
+        -------
+        value : numpy.ndarray
+            The argument with (length 1) dimensions added after the first.
+        """
+        value = np.asarray(value)
+        if 0 < value.ndim < len(size) and len(value) == size[0]:
+            value = value.reshape(value.shape[:1] + (1,) * (len(size) - value.ndim) + value.shape[1:])
+        return value
+
     def compute(self, graph_state, rng_info=None, **kwargs):
         """Execute the wrapped function.
 
@@ -130,6 +152,9 @@ class NumpyRandomFunc(FunctionNode):
             size_param = None
 
         # Generate the values. Then save and return the results.
+        if graph_state.num_samples > 1 and len(self.sample_size) > 0:
+            args = {name: self._align_samples(value, size_param) for name, value in args.items()}
+
         results = func(**args, size=size_param)
         self._save_results(results, graph_state)
         return results
-- 
2.43.0


From ed1a1900ad239ea09699e244fb845e3714e21a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 22/79] fix: a multi-object model inside another (or linked
 from another node) samples its own objects

---
 .../models/multi_object_model.py              | 50 +++++++------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index a9cfa90..6e7fbd8 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -6,7 +6,6 @@ only one object is selected at random for each flux calculation.
 
 import numpy as np
 
-from lightcurvelynx.graph_state import GraphState
 from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler
 from lightcurvelynx.models.physical_model import BandfluxModel, BasePhysicalModel, SEDModel
 
@@ -125,46 +124,31 @@ class MultiObjectModel(SEDModel):
         for object, saved_object in zip(self.objects, saved_objects, strict=True):
             object._restore_effects(saved_object)
 
-    def sample_parameters(self, given_args=None, num_samples=1, rng_info=None):
-        """Sample the model's underlying parameters if they are provided by a function
-        or ParameterizedModel.
+    def _sample_helper(self, graph_state, seen_nodes, rng_info=None):
+        """Internal recursive function to sample the model's underlying parameters
+        and those of all the objects it contains.
 
         Parameters
         ----------
-        given_args : dict, optional
-            A dictionary representing the given arguments for this sample run.
-            This can be used as the JAX PyTree for differentiation.
-        num_samples : int
-            A count of the number of samples to compute.
-            Default: 1
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        seen_nodes : dict
+            A dictionary mapping nodes seen during this sampling run to their ID.
+            Used to avoid sampling nodes multiple times and to validity check the graph.
         rng_info : numpy.random._generator.Generator, optional
             A given numpy random number generator to use for this computation. If not
             provided, the function uses the node's random number generator.
-        **kwargs : dict, optional
-            All the keyword arguments, including the values needed to sample
-            parameters.
 
-        Returns
-        -------
-        graph_state : GraphState
-            An object mapping graph parameters to their values.
+        Raises
+        ------
+        Raise a ValueError the sampling encounters a problem with the order of dependencies.
         """
-        # If the graph has not been sampled ever, update the node positions for every node.
-        if self.node_pos is None:
-            self.set_graph_positions()
-
-        # We use the same seen_nodes for all sampling calls so each node
-        # is sampled at most one time regardless of link structure.
-        graph_state = GraphState(num_samples)
-        if given_args is not None:
-            graph_state.update(given_args, all_fixed=True)
-
-        seen_nodes = {}
-        for object in self.objects:
-            object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
-        self._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
-
-        return graph_state
+        # Each node is sampled at most one time regardless of link structure.
+        if seen_nodes.get(str(self), None) is not self:
+            for object in self.objects:
+                object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
+        super()._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
 
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
-- 
2.43.0


From fe0e247439c62a9e39292cfa089a8c5dd8bc9333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 23/79] fix: sampling renumbers the graph when a linked node
 was changed, added or renumbered elsewhere

---
 src/lightcurvelynx/base_models.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/base_models.py b/src/lightcurvelynx/base_models.py
index 66d7d70..f3fe26b 100644
--- a/src/lightcurvelynx/base_models.py
+++ b/src/lightcurvelynx/base_models.py
@@ -258,10 +258,31 @@ class ParameterizedNode:
         # Update each node's string and then its position. This node comes last, because its position
         # tells other callers (and later calls, if this one is interrupted) that all names are final.
         first_pos = len(seen_nodes) - len(nodes)
+        if any(node.node_pos != first_pos + idx for idx, node in enumerate(nodes)):
+            self.node_pos = None
         for idx in reversed(range(len(nodes))):
             nodes[idx]._update_node_string(node_pos=first_pos + idx)
             nodes[idx].node_pos = first_pos + idx
 
+    def _needs_graph_positions(self):
+        """Check whether the nodes of this graph still need (new) positions. This happens when
+        the node has never been sampled, when one of the nodes it depends on has changed or been
+        added, or when a node has been renumbered as part of another graph and now shares its name
+        with a different node.
+
+        Returns
+        -------
+        bool
+            True if set_graph_positions() needs to be called.
+        """
+        if self.node_pos is None:
+            return True
+        nodes = []
+        self._collect_graph_nodes(set(), nodes)
+        if any(node.node_pos is None for node in nodes):
+            return True
+        return len({str(node) for node in nodes}) < len(nodes)
+
     def _collect_graph_nodes(self, seen_nodes, nodes):
         """List this node and the nodes it depends on in the order of their graph positions.
 
@@ -666,7 +687,7 @@ class ParameterizedNode:
             If the sampling encounters a problem with the order of dependencies.
         """
         # If the graph structure has never been set, do that now.
-        if self.node_pos is None:
+        if self._needs_graph_positions():
             nodes = set()
             self.set_graph_positions(seen_nodes=nodes)
 
@@ -731,7 +752,7 @@ class ParameterizedNode:
             An object tracking the dependencies between parameters.
         """
         # If the graph structure has never been set, do that now.
-        if self.node_pos is None:
+        if self._needs_graph_positions():
             nodes = set()
             self.set_graph_positions(seen_nodes=nodes)
 
-- 
2.43.0


From 0231bc1b7d4bf9cbb0c00a5ad72be7e593700e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 24/79] fix: an object without visits in a survey no longer
 breaks column and error lookups

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 7689af6..e51ade1 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -176,7 +176,7 @@ def simulate_lightcurves(
 
         for survey_idx in range(num_surveys):
             # Find the indices and times where the current model is seen.
-            obs_index = np.asarray(all_obs_matches[survey_idx][idx])
+            obs_index = np.asarray(all_obs_matches[survey_idx][idx], dtype=int)
             if len(obs_index) == 0:
                 obs_times = []
                 obs_filters = []
-- 
2.43.0


From 31ffe286b1ad547a0f6dedb59a50a55e8dcc5731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 25/79] fix: extrapolation queries each wavelength once when
 one equals a model bound

---
 src/lightcurvelynx/models/physical_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 825b750..10512de 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -402,8 +402,10 @@ class SEDModel(BasePhysicalModel):
         in_range = ~before_mask & ~after_mask
 
         # Pad the wavelengths with the min and max values and compute the flux at those points.
-        query_waves = np.concatenate(([min_valid_wave], wavelengths[in_range], [max_valid_wave]))
-        computed_flux = self.compute_sed(times, query_waves, graph_state)
+        # A requested wavelength can coincide with a bound, so only query each value once.
+        padded_waves = np.concatenate(([min_valid_wave], wavelengths[in_range], [max_valid_wave]))
+        query_waves, padded_index = np.unique(padded_waves, return_inverse=True)
+        computed_flux = self.compute_sed(times, query_waves, graph_state)[:, padded_index]
 
         # Initially zero pad the full array until we fill in the values with extrapolation.
         # We drop the first and last flux values since they were added to get the flux at the
-- 
2.43.0


From 988aeebb4c9f9ec5907637283f76a6dc95fbe329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 26/79] fix: band flux integration uses the passband grid's
 actual step

---
 src/lightcurvelynx/astro_utils/passbands.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 6a2af5e..5c35217 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1225,9 +1225,12 @@ class Passband:
         if self.delta_wave is not None:
             # If the grid is equal spaced, we can use a faster method of computing a rectangular
             # integration and removing half the first and last values (to make it trapezoidal).
+            # The actual step can be larger than the requested delta_wave, because the grid
+            # always covers the full table.
+            step = (self.waves[-1] - self.waves[0]) / (len(self.waves) - 1)
             first_val = np.take(integrand, 0, axis=w_axis)
             last_val = np.take(integrand, -1, axis=w_axis)
-            bandfluxes = (np.sum(integrand, axis=w_axis) - 0.5 * (first_val + last_val)) * self.delta_wave
+            bandfluxes = (np.sum(integrand, axis=w_axis) - 0.5 * (first_val + last_val)) * step
         else:
             # Do the full integration.
             bandfluxes = scipy.integrate.trapezoid(integrand, x=self.waves, axis=w_axis)
-- 
2.43.0


From c7f0034894cc39904b73cd384238706024732b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 27/79] fix: duplicate wavelengths in a transmission table are
 averaged instead of raising

---
 src/lightcurvelynx/astro_utils/passbands.py | 25 ++++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 5c35217..f590ec5 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -22,6 +22,23 @@ logging.basicConfig(level=logging.INFO, format="%(asctime)s - %(levelname)s - %(
 logger = logging.getLogger(__name__)
 
 
+def _average_duplicate_wavelengths(table):
+    """Average the transmissions of rows that have the same wavelength.
+
+    Parameters
+    ----------
+    table : numpy.ndarray
+        A 2-dimensional array of wavelengths and transmissions.
+
+    Returns
+    -------
+    numpy.ndarray
+        A new table with one row per unique wavelength.
+    """
+    unique_waves, inverse, counts = np.unique(table[:, 0], return_inverse=True, return_counts=True)
+    return np.column_stack([unique_waves, np.bincount(inverse, weights=table[:, 1]) / counts])
+
+
 class PassbandGroup:
     """A group of passbands.
 
@@ -723,9 +740,7 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be strictly increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
-            table_values[dup_inds, 1] = 0.5 * (table_values[dup_inds, 1] + table_values[dup_inds + 1, 1])
-            table_values = np.delete(table_values, dup_inds + 1, axis=0)
+            table_values = _average_duplicate_wavelengths(table_values)
         self._loaded_table = np.copy(table_values)
 
         # Ensure the wavelengths are in Angstroms.
@@ -1016,9 +1031,7 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
-            loaded_table[dup_inds, 1] = 0.5 * (loaded_table[dup_inds, 1] + loaded_table[dup_inds + 1, 1])
-            loaded_table = np.delete(loaded_table, dup_inds + 1, axis=0)
+            loaded_table = _average_duplicate_wavelengths(loaded_table)
 
         return loaded_table
 
-- 
2.43.0


From a40957805718ef63543b8b4976dfb97a972db8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 28/79] fix: a passband group follows members that were
 reprocessed on their own

---
 src/lightcurvelynx/astro_utils/passbands.py | 36 +++++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index f590ec5..20f3770 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -91,7 +91,7 @@ class PassbandGroup:
             Additional keyword arguments to pass to the Passband constructor.
         """
         self.passbands = {}
-        self._in_band_wave_indices = {}
+        self._grid = None
         self._filter_to_name = {}
 
         # If we are given a single Passband object or a single dictionary, wrap it in a list.
@@ -521,8 +521,38 @@ class PassbandGroup:
                 indices = np.searchsorted(waves, passband.waves)
             in_band_wave_indices[name] = indices
 
-        self.waves = waves
-        self._in_band_wave_indices = in_band_wave_indices
+        # Save the grid together with the member grids for which it was computed, so we can tell
+        # when a member was reprocessed on its own (e.g. because another group shares it).
+        member_waves = {name: passband.waves for name, passband in self.passbands.items()}
+        self._grid = (waves, in_band_wave_indices, member_waves)
+
+    def _current_grid(self):
+        """Get the group's grid, recomputing it if a member passband changed.
+
+        Returns
+        -------
+        waves : np.ndarray
+            The union of all wavelengths in the passbands.
+        in_band_wave_indices : dict
+            A dictionary mapping the passband name to the indices of its wavelengths.
+        """
+        _, _, member_waves = self._grid
+        if len(member_waves) != len(self.passbands) or any(
+            member_waves.get(name) is not passband.waves for name, passband in self.passbands.items()
+        ):
+            self._update_internal_data()
+        waves, in_band_wave_indices, _ = self._grid
+        return waves, in_band_wave_indices
+
+    @property
+    def waves(self):
+        """The union of all wavelengths in the passbands."""
+        return self._current_grid()[0]
+
+    @property
+    def _in_band_wave_indices(self):
+        """The indices of each passband's wavelengths in the group's grid."""
+        return self._current_grid()[1]
 
     def wave_bounds(self):
         """Get the minimum and maximum wavelength for this group.
-- 
2.43.0


From 9dabb8e86e8470c80ac14d6b9194d5cdb7db2e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 29/79] fix: a passband group looks up merged wavelengths at
 the closest grid point

---
 src/lightcurvelynx/astro_utils/passbands.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 20f3770..0fae536 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -518,7 +518,10 @@ class PassbandGroup:
             if np.array_equal(waves[lower_index : upper_index + 1], passband.waves):
                 indices = slice(lower_index, upper_index + 1)
             else:
-                indices = np.searchsorted(waves, passband.waves)
+                # Use the closest grid point, because a passband's exact wavelength is not on the
+                # group's grid if it was merged with a close one from another passband.
+                midpoints = 0.5 * (waves[1:] + waves[:-1])
+                indices = np.searchsorted(midpoints, passband.waves)
             in_band_wave_indices[name] = indices
 
         # Save the grid together with the member grids for which it was computed, so we can tell
-- 
2.43.0


From 54e984e66299887584baed632b96e60d4f41e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 30/79] fix: unusable transmission tables are rejected with the
 intended ValueError

---
 src/lightcurvelynx/astro_utils/passbands.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 0fae536..67dc4b4 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1148,6 +1148,10 @@ class Passband:
         if trim_quantile < 0 or trim_quantile >= 0.5:
             raise ValueError(f"Trim quantile must be between 0 and 0.5; got {trim_quantile}.")
 
+        # A single point has no area to trim (the table is rejected when it is normalized).
+        if len(table) < 2:
+            return table
+
         # Separate wavelengths and transmissions
         wavelengths = table[:, 0]
         transmissions = table[:, 1]
@@ -1208,8 +1212,7 @@ class Passband:
             raise ValueError(
                 "Denominator is zero; cannot normalize transmission table. "
                 f"Consider checking the transmission table for band {self.full_name}. "
-                f"With wave grid set to: {self._wave_grid}, transmission table wavelengths are: "
-                f"{transmission_table[:, 0]}."
+                f"The transmission table wavelengths are: {transmission_table[:, 0]}."
             )
 
         # Calculate phi_b for each wavelength
-- 
2.43.0


From 682782e396a142728ee61b9cb68bf79c9660d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 31/79] fix: an ambiguous filter name is rejected instead of
 picking one of the passbands

---
 src/lightcurvelynx/astro_utils/passbands.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 67dc4b4..cb3075e 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -635,7 +635,8 @@ class PassbandGroup:
         """
         if filter not in self.passbands:
             if filter in self._filter_to_name:
-                filter = self._filter_to_name[filter][0]
+                # Raises a KeyError if the filter name is ambiguous.
+                filter = self[filter].full_name
             else:
                 raise ValueError(f"Filter {filter} not found in passband group.")
         passband = self.passbands[filter]
-- 
2.43.0


From 7420db3949e3c48af4ecf00c78ecfc019a3a82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 32/79] fix: a scalar time window applies to all query points
 of a range search

---
 src/lightcurvelynx/obstable/obs_table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index b7f4e27..9fac324 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -569,6 +569,8 @@ class ObsTable:
 
             if t_min is None:
                 t_min = np.full(num_queries, -np.inf)
+            elif np.isscalar(t_min):
+                t_min = np.full(num_queries, t_min)
             else:
                 t_min = np.atleast_1d(t_min)
             if len(t_min) != num_queries:
@@ -576,6 +578,8 @@ class ObsTable:
 
             if t_max is None:
                 t_max = np.full(num_queries, np.inf)
+            elif np.isscalar(t_max):
+                t_max = np.full(num_queries, t_max)
             else:
                 t_max = np.atleast_1d(t_max)
             if len(t_max) != num_queries:
-- 
2.43.0


From 0f8f0e7d391ba8627da659e685810e26b5542e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 33/79] fix: overwriting a survey table's positions rebuilds
 its spatial index

---
 src/lightcurvelynx/obstable/obs_table.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 9fac324..a9e2395 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -130,12 +130,14 @@ class ObsTable:
 
         self.filters = np.unique(self._table["filter"]) if "filter" in self._table.columns else np.array([])
 
+        # The kd-tree is built once the table is complete.
+        self._kd_tree = None
+
         # If we are not given zero point data, try to derive it from the other columns.
         if "zp" not in self:
             self._assign_zero_points()
 
         # Build the kd-tree.
-        self._kd_tree = None
         self._build_kd_tree()
 
         # Create the footprint if one is provided.
@@ -373,7 +375,18 @@ class ObsTable:
         # If the input is a scalar, turn it into an array of the correct length
         if np.isscalar(values):
             values = np.full((len(self._table)), values)
-        self._table[colname] = values
+
+        # If the pointings change, the spatial index must be rebuilt to match them.
+        if colname in ("ra", "dec") and self._kd_tree is not None:
+            previous = self._table
+            self._table = previous.assign(**{colname: values})
+            try:
+                self._build_kd_tree()
+            except BaseException:
+                self._table = previous
+                raise
+        else:
+            self._table[colname] = values
 
     def write_db(self, filename, *, tablename="observations", overwrite=False):
         """Write out the observation table as a database to a given SQL table.
-- 
2.43.0


From ae7ee68ac69fb0b9868e0f9d75eb035e2ca6dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 34/79] fix: get_observations reads the matching rows by
 position, not by label

---
 src/lightcurvelynx/obstable/obs_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index a9e2395..389b1a7 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -663,6 +663,7 @@ class ObsTable:
             A dictionary mapping the given column name to a numpy array of values.
         """
         neighbors = self.range_search(query_ra, query_dec, radius=radius, t_min=t_min, t_max=t_max)
+        neighbors = np.asarray(neighbors, dtype=int)
 
         results = {}
         if cols is None:
@@ -675,7 +676,7 @@ class ObsTable:
             # by using the class accessor (__getitem__), instead of the table one.
             if col not in self:
                 raise KeyError(f"Unrecognized column name {col}")
-            results[col] = self[col][neighbors].to_numpy()
+            results[col] = self[col].to_numpy()[neighbors]
         return results
 
     def bandflux_error_point_source(self, bandflux, index):
-- 
2.43.0


From 5829e86d7deaed5f85711c1586228956382c2c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 35/79] fix: a survey table is written to a database in one
 transaction and without its row labels

---
 src/lightcurvelynx/obstable/obs_table.py | 25 ++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 389b1a7..5257e19 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -3,6 +3,7 @@ information. ObsTable class is a base class with specific implementations
 for different survey data, such as Rubin and ZTF."""
 
 import sqlite3
+from contextlib import closing
 from pathlib import Path
 
 import astropy.units as u
@@ -406,16 +407,28 @@ class ObsTable:
         -----
         FileExistsError if the file already exists and overwrite is False.
         """
-        if_exists = "replace" if overwrite else "fail"
-
-        con = sqlite3.connect(filename)
+        quoted_name = '"' + tablename.replace('"', '""') + '"'
         try:
-            self._table.to_sql(tablename, con, if_exists=if_exists)
+            # Stage the new table in memory, so that it can be moved into the file in a single
+            # transaction. A failure at any point then leaves the database as it was.
+            with closing(sqlite3.connect(":memory:")) as staged, closing(sqlite3.connect(filename)) as con:
+                self._table.to_sql(tablename, staged, index=False)
+                create_sql = staged.execute("SELECT sql FROM sqlite_master WHERE type='table'").fetchone()[0]
+
+                con.isolation_level = None  # Control the transaction explicitly.
+                con.execute("BEGIN IMMEDIATE")
+                if overwrite:
+                    con.execute(f"DROP TABLE IF EXISTS {quoted_name}")
+                con.execute(create_sql)
+                placeholders = ", ".join(["?"] * len(self._table.columns))
+                con.executemany(
+                    f"INSERT INTO {quoted_name} VALUES ({placeholders})",
+                    staged.execute(f"SELECT * FROM {quoted_name}"),
+                )
+                con.execute("COMMIT")
         except Exception:
             raise ValueError("Database write failed.") from None
 
-        con.close()
-
     def write_parquet(self, filename, *, overwrite=False):
         """Write out the observation table as a parquet file.
 
-- 
2.43.0


From 0e1f33fd4a10794376f2b3dabe3cba3c29915866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 36/79] fix: database files with special characters in their
 name are read, and their connections closed on errors

---
 src/lightcurvelynx/obstable/obs_table.py    | 7 ++-----
 src/lightcurvelynx/obstable/ztf_obstable.py | 8 +++-----
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 5257e19..9fb183d 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -272,17 +272,14 @@ class ObsTable:
         """
         if not Path(filename).is_file():
             raise FileNotFoundError(f"db file {filename} not found.")
-        con = sqlite3.connect(f"file:{filename}?mode=ro", uri=True)
 
         # Read the table.
         try:
-            survey_data = pd.read_sql_query(sql_query, con)
+            with closing(sqlite3.connect(f"{Path(filename).resolve().as_uri()}?mode=ro", uri=True)) as con:
+                survey_data = pd.read_sql_query(sql_query, con)
         except Exception:
             raise ValueError("Database read failed.") from None
 
-        # Close the connection.
-        con.close()
-
         return cls(survey_data, **kwargs)
 
     @classmethod
diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index ca1c0cf..9e26179 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -1,4 +1,5 @@
 import sqlite3
+from contextlib import closing
 from pathlib import Path
 
 import numpy as np
@@ -138,17 +139,14 @@ class ZTFObsTable(ObsTable):
 
         if not Path(filename).is_file():
             raise FileNotFoundError(f"ObsTable file {filename} not found.")
-        con = sqlite3.connect(f"file:{filename}?mode=ro", uri=True)
 
         # Read the table.
         try:
-            obstable = pd.read_sql_query(sql_query, con)
+            with closing(sqlite3.connect(f"{Path(filename).resolve().as_uri()}?mode=ro", uri=True)) as con:
+                obstable = pd.read_sql_query(sql_query, con)
         except Exception:
             raise ValueError("ObsTable database read failed.") from None
 
-        # Close the connection.
-        con.close()
-
         return ZTFObsTable(obstable, colmap=colmap)
 
     def bandflux_error_point_source(self, bandflux, index):
-- 
2.43.0


From e00c6e1128a19f56f460cf6828d5ca508dd273d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 37/79] fix: a fake survey table that is reloaded from a
 parquet file keeps its saved settings

---
 src/lightcurvelynx/obstable/fake_obs_table.py | 37 +++++++++++--------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/lightcurvelynx/obstable/fake_obs_table.py b/src/lightcurvelynx/obstable/fake_obs_table.py
index 999f4a3..b05ce3d 100644
--- a/src/lightcurvelynx/obstable/fake_obs_table.py
+++ b/src/lightcurvelynx/obstable/fake_obs_table.py
@@ -87,23 +87,28 @@ class FakeObsTable(ObsTable):
         **kwargs,
     ):
         self.zp_per_band = zp_per_band
-        self.const_flux_error = const_flux_error
-
-        # Pass along all the survey parameters to the parent class.
-        super().__init__(
-            table,
-            colmap=colmap,
-            dark_current=dark_current,
-            exptime=exptime,
-            psf_footprint=psf_footprint,
-            fwhm_px=fwhm_px,
-            nexposure=nexposure,
-            radius=radius,
-            read_noise=read_noise,
-            sky=sky,
-            **kwargs,
-        )
 
+        # Pass along all the survey parameters to the parent class. A parameter that was left at
+        # its default must not replace the value that was saved with the table (if there is one).
+        settings = {
+            "const_flux_error": const_flux_error,
+            "dark_current": dark_current,
+            "exptime": exptime,
+            "psf_footprint": psf_footprint,
+            "fwhm_px": fwhm_px,
+            "nexposure": nexposure,
+            "radius": radius,
+            "read_noise": read_noise,
+            "sky": sky,
+        }
+        for name, value in settings.items():
+            default = self._default_survey_values.get(name)
+            if value is not None if default is None else value != default:
+                kwargs[name] = value
+        super().__init__(table, colmap=colmap, **kwargs)
+
+        const_flux_error = self.survey_values.get("const_flux_error")
+        self.const_flux_error = const_flux_error
         if const_flux_error is not None:
             # Convert a constant into a per-band dictionary.
             if isinstance(const_flux_error, int | float):
-- 
2.43.0


From aeba5bab0e548ef20971f2f41f6077e5f9cf5e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 38/79] fix: numeric data files are replaced in one step
 instead of being overwritten in place

---
 src/lightcurvelynx/utils/io_utils.py | 56 +++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 17891b5..68709da 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -1,11 +1,47 @@
 import gzip
 import logging
+import os
+import shutil
+import uuid
+from contextlib import contextmanager
 from pathlib import Path
 
 import numpy as np
 from astropy.table import Table
 
 
+@contextmanager
+def atomic_output_file(file_path):
+    """A context manager for replacing a file in one step. Nothing happens to the file itself until
+    the body has completed without an exception. So if the write fails, or the process dies in the
+    middle, then the previous file (if there was one) is still there unchanged.
+
+    Parameters
+    ----------
+    file_path : str or Path
+        The path to the file to write.
+
+    Yields
+    ------
+    temp_path : Path
+        The path (in the same directory and with the same suffix) to which to write the data.
+    """
+    file_path = Path(os.path.realpath(file_path))
+    temp_path = file_path.with_name(f".{uuid.uuid4().hex}{file_path.suffix}")
+    try:
+        yield temp_path
+
+        # Make sure that the data is on the disk before the file replaces the previous one.
+        with open(temp_path, "rb+") as temp_file:
+            os.fsync(temp_file.fileno())
+        if file_path.exists():
+            shutil.copymode(file_path, temp_path)
+        os.replace(temp_path, file_path)
+    except BaseException:
+        temp_path.unlink(missing_ok=True)
+        raise
+
+
 def read_numpy_data(file_path):
     """Read in a numpy array from different formats depending on the file extension.
     Automatically detects and handles files in .npy, .npz, .csv, .ecsv, and .txt
@@ -54,17 +90,19 @@ def write_numpy_data(file_path, data):
         The data to write to the file.
     """
     file_path = Path(file_path)
-    if file_path.suffix == ".npy":
-        np.save(file_path, data)
-    elif file_path.suffix == ".npz":
-        np.savez_compressed(file_path, arr_0=data)
-    elif file_path.suffix in [".csv", ".ecsv"]:
-        np.savetxt(file_path, data, delimiter=",")
-    elif file_path.suffix in [".txt", ".dat"]:
-        np.savetxt(file_path, data)
-    else:
+    if file_path.suffix not in [".npy", ".npz", ".csv", ".ecsv", ".txt", ".dat"]:
         raise ValueError(f"Unsupported file format: {file_path.suffix}.")
 
+    with atomic_output_file(file_path) as temp_path:
+        if file_path.suffix == ".npy":
+            np.save(temp_path, data)
+        elif file_path.suffix == ".npz":
+            np.savez_compressed(temp_path, arr_0=data)
+        elif file_path.suffix in [".csv", ".ecsv"]:
+            np.savetxt(temp_path, data, delimiter=",")
+        else:
+            np.savetxt(temp_path, data)
+
 
 def read_grid_data(input_file, format="ascii", validate=False):
     """Read 2-d grid data from a text, csv, ecsv, or fits file.
-- 
2.43.0


From f2d16db94a2ad32ced6b86f0f8f29f687f17eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 39/79] fix: a .dat file written by write_numpy_data can be
 read back, and .npz files are closed

---
 src/lightcurvelynx/utils/io_utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 68709da..487128b 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -44,8 +44,8 @@ def atomic_output_file(file_path):
 
 def read_numpy_data(file_path):
     """Read in a numpy array from different formats depending on the file extension.
-    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, and .txt
-    formats.
+    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, .txt,
+    and .dat formats.
 
     Parameters
     ----------
@@ -66,10 +66,11 @@ def read_numpy_data(file_path):
         data = np.load(file_path)
     elif file_path.suffix == ".npz":
         # For npz files, extract the first array
-        data = np.load(file_path)["arr_0"]
+        with np.load(file_path) as npz_data:
+            data = npz_data["arr_0"]
     elif file_path.suffix in [".csv", ".ecsv"]:
         data = np.loadtxt(file_path, delimiter=",", comments="#")
-    elif file_path.suffix in [".txt"]:
+    elif file_path.suffix in [".txt", ".dat"]:
         data = np.loadtxt(file_path, comments="#")
     else:
         raise ValueError(f"Unsupported file format: {file_path.suffix}.")
@@ -79,8 +80,8 @@ def read_numpy_data(file_path):
 
 def write_numpy_data(file_path, data):
     """Write a numpy array to a file in a format determined by the file extension.
-    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, and .txt
-    formats.
+    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, .txt,
+    and .dat formats.
 
     Parameters
     ----------
-- 
2.43.0


From 3f878bf0fe6b9fcb4e5e6ef8865536cd43f77211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 40/79] fix: a saved state is replaced in one step instead of
 being overwritten in place

---
 src/lightcurvelynx/graph_state.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 08e3610..6d3f8c0 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -24,10 +24,14 @@ We could have one mean for an object's brightness and another for its positional
 of a host galaxy.
 """
 
+from pathlib import Path
+
 import numpy as np
 from astropy.io import ascii
 from astropy.table import Table
 
+from lightcurvelynx.utils.io_utils import atomic_output_file
+
 
 class GraphState:
     """A class to hold the state(s) of the each variable for one or more samples of the random
@@ -625,8 +629,12 @@ class GraphState:
             Whether to overwrite an existing file.
             Default: False
         """
+        if not overwrite and Path(filename).exists():
+            raise OSError(f"File {filename} already exists. Use overwrite=True to replace it.")
+
         data_table = self.to_table()
-        ascii.write(data_table, filename, format="ecsv", overwrite=overwrite)
+        with atomic_output_file(filename) as temp_path:
+            ascii.write(data_table, temp_path, format="ecsv", overwrite=True)
 
 
 class DependencyGraph:
-- 
2.43.0


From b395ff8f6acc8c7209d2d6c5b7ec0575d88f8980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 41/79] fix: a state with a single sample can be converted to a
 table and saved

---
 src/lightcurvelynx/graph_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 6d3f8c0..12665cb 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -596,7 +596,9 @@ class GraphState:
         values = Table()
         for node_name, node_params in self.states.items():
             for param_name, param_value in node_params.items():
-                values[self.extended_param_name(node_name, param_name)] = np.array(param_value)
+                # A single sample is stored without the sample dimension.
+                column = [param_value] if self.num_samples == 1 else param_value
+                values[self.extended_param_name(node_name, param_name)] = np.array(column)
         return values
 
     def to_dict(self):
-- 
2.43.0


From 5d73fba11bb62765708b1aa2ebb090556372acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 42/79] fix: a survey table's parquet file is replaced in one
 step, and writing it leaves the table alone

---
 src/lightcurvelynx/obstable/obs_table.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 9fb183d..802392d 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -15,6 +15,7 @@ from regions import Region
 from scipy.spatial import KDTree
 
 from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint
+from lightcurvelynx.utils.io_utils import atomic_output_file
 
 
 class ObsTable:
@@ -445,8 +446,10 @@ class ObsTable:
             raise FileExistsError(f"File {filename} already exists.")
 
         # Save all the survey data as metadata.
-        self._table.attrs["lightcurvelynx_survey_data"] = self.survey_values
-        self._table.to_parquet(filename)
+        table = self._table.copy(deep=False)
+        table.attrs["lightcurvelynx_survey_data"] = self.survey_values
+        with atomic_output_file(filename) as temp_path:
+            table.to_parquet(temp_path)
 
     def time_bounds(self):
         """Returns the min and max times for all observations in the ObsTable.
-- 
2.43.0


From fd570aacb2d9e31de16b1289d8c5fe207cd6b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 43/79] fix: a sample extracted from a state keeps track of the
 fixed parameters

---
 src/lightcurvelynx/graph_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 12665cb..2a8376d 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -504,6 +504,7 @@ class GraphState:
         new_state.num_parameters = self.num_parameters
         for node_name in self.states:
             new_state.states[node_name] = {}
+            new_state.fixed_vars[node_name] = self.fixed_vars[node_name].copy()
             for var_name, value in self.states[node_name].items():
                 if self.num_samples == 1:
                     new_state.states[node_name][var_name] = value
-- 
2.43.0


From 9f97bd76edc412cbd5c1ee1513c7ff5972c5aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 44/79] fix: states with text, missing or object values can be
 compared

---
 src/lightcurvelynx/graph_state.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 2a8376d..fd11b80 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -33,6 +33,15 @@ from astropy.table import Table
 from lightcurvelynx.utils.io_utils import atomic_output_file
 
 
+def _values_match(value1, value2):
+    """Check that two (scalar or array) parameter values are the same up to rounding. Missing
+    values match each other and non-numeric values need to be equal."""
+    value1, value2 = np.asarray(value1), np.asarray(value2)
+    if value1.dtype.kind in "biufc" and value2.dtype.kind in "biufc":
+        return np.allclose(value1, value2, equal_nan=True)
+    return value1.shape == value2.shape and bool(np.all(value1 == value2))
+
+
 class GraphState:
     """A class to hold the state(s) of the each variable for one or more samples of the random
     variables in the graph. Each entry is indexed by a combination of node's (unique) name and
@@ -139,7 +148,7 @@ class GraphState:
             for var_name, var_value in node_params.items():
                 if var_name not in other_params:
                     return False
-                if not np.allclose(var_value, other_params[var_name]):
+                if not _values_match(var_value, other_params[var_name]):
                     return False
 
         # Finally check that the 'fixed' dictionary is the same.
-- 
2.43.0


From 4c37989e015e00fc71856658fb219538eb44d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 45/79] fix: concatenated states keep their parameters in order

---
 src/lightcurvelynx/graph_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index fd11b80..30f1779 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -328,10 +328,10 @@ class GraphState:
 
             # Check that this is either the first GraphState we have seen or has the same parameters
             # as the earlier GraphStates we have seen.
-            current_full_names = set(current.get_all_params_names())
+            current_full_names = current.get_all_params_names()
             if all_param_full_names is None:
                 all_param_full_names = current_full_names
-            elif all_param_full_names != current_full_names:
+            elif set(all_param_full_names) != set(current_full_names):
                 raise ValueError(
                     f"The sets of parameters do not match. Expected {all_param_full_names}."
                     f"Received {current_full_names}."
-- 
2.43.0


From 677d178bd79a3d9debb0c47585f62fcbb0fee06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 46/79] fix: single samples of array-valued parameters can be
 concatenated

---
 src/lightcurvelynx/graph_state.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 30f1779..aeaed9a 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -349,7 +349,11 @@ class GraphState:
             # from each of the GraphStates.
             values_list = []
             for current in graph_states:
-                values_list.append(np.atleast_1d(current[full_name]))
+                current_values = np.atleast_1d(current[full_name])
+                if current.num_samples == 1 and len(current_values) != 1:
+                    # A single sample of an array-valued parameter.
+                    current_values = current_values[np.newaxis]
+                values_list.append(current_values)
             values = np.concatenate(values_list)
             result.set(node_name, param_name, values, force_copy=False, fixed=False)
         return result
-- 
2.43.0


From ec614b890fb0c54fd758c3a43015e0050d045e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 47/79] fix: reading a database recovers from an interrupted
 write

---
 src/lightcurvelynx/obstable/obs_table.py    | 2 +-
 src/lightcurvelynx/obstable/ztf_obstable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 802392d..42b8e89 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -276,7 +276,7 @@ class ObsTable:
 
         # Read the table.
         try:
-            with closing(sqlite3.connect(f"{Path(filename).resolve().as_uri()}?mode=ro", uri=True)) as con:
+            with closing(sqlite3.connect(f"{Path(filename).resolve().as_uri()}?mode=rw", uri=True)) as con:
                 survey_data = pd.read_sql_query(sql_query, con)
         except Exception:
             raise ValueError("Database read failed.") from None
diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index 9e26179..23dc02e 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -142,7 +142,7 @@ class ZTFObsTable(ObsTable):
 
         # Read the table.
         try:
-            with closing(sqlite3.connect(f"{Path(filename).resolve().as_uri()}?mode=ro", uri=True)) as con:
+            with closing(sqlite3.connect(f"{Path(filename).resolve().as_uri()}?mode=rw", uri=True)) as con:
                 obstable = pd.read_sql_query(sql_query, con)
         except Exception:
             raise ValueError("ObsTable database read failed.") from None
-- 
2.43.0


From ec70d7781d23c9ce5f0714daedf27fd95ba4704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 48/79] fix: a forced download replaces the existing file

---
 src/lightcurvelynx/utils/data_download.py | 31 ++++++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/lightcurvelynx/utils/data_download.py b/src/lightcurvelynx/utils/data_download.py
index 1f805ba..660fa30 100644
--- a/src/lightcurvelynx/utils/data_download.py
+++ b/src/lightcurvelynx/utils/data_download.py
@@ -1,6 +1,8 @@
 """Basic functions for downloading data using pooch."""
 
 import logging
+import os
+import tempfile
 from pathlib import Path
 
 import pooch
@@ -39,13 +41,28 @@ def download_data_file_if_needed(data_path, data_url, force_download=False):
     # Create the directory in which to save the file if it does not already exist.
     data_path.parent.mkdir(parents=True, exist_ok=True)
 
-    # Use pooch to download the data files and extract them to the data directory.
-    full_path = pooch.retrieve(
-        url=data_url,
-        known_hash=None,
-        fname=data_path.name,
-        path=data_path.parent,
-    )
+    # Pooch never replaces a file that is already there. So a new copy of an existing file is
+    # downloaded next to it and replaces it once it is complete.
+    if data_path.exists():
+        target_path = data_path.resolve()
+        with tempfile.TemporaryDirectory(dir=target_path.parent) as temp_dir:
+            full_path = pooch.retrieve(
+                url=data_url,
+                known_hash=None,
+                fname=target_path.name,
+                path=Path(temp_dir),
+            )
+            if full_path is not None and Path(full_path).exists():
+                os.replace(full_path, target_path)
+                full_path = target_path
+    else:
+        # Use pooch to download the data files and extract them to the data directory.
+        full_path = pooch.retrieve(
+            url=data_url,
+            known_hash=None,
+            fname=data_path.name,
+            path=data_path.parent,
+        )
 
     if full_path is None or not Path(full_path).exists():
         logger.error(f"Transmission table not downloaded from {data_url}.")
-- 
2.43.0


From f616a0cb73570c080b6b2ed82bd9611302be93d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 49/79] fix: empty text parameters are read back from a saved
 state

---
 src/lightcurvelynx/graph_state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index aeaed9a..1419a28 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -260,7 +260,8 @@ class GraphState:
         filename : str or Path
             The name of the file.
         """
-        data_table = ascii.read(filename, format="ecsv")
+        # The empty text is a value (not a marker of missing data).
+        data_table = ascii.read(filename, format="ecsv", fill_values=[])
         return GraphState.from_table(data_table)
 
     @classmethod
-- 
2.43.0


From aaec9497a627cba8c03bdbfda003f874340f8f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 50/79] fix: an event of a light curve library does not inherit
 values of the events before it

---
 src/lightcurvelynx/utils/io_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 487128b..896b474 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -202,7 +202,8 @@ def _read_lclib_data_from_open_file(input_file):
     """
     colnames = []
     curves = []
-    meta = {}
+    header_meta = {}  # The information that is shared by all events.
+    meta = header_meta
     current_model = {}
     parnames = []
     in_doc_block = False
@@ -241,14 +242,16 @@ def _read_lclib_data_from_open_file(input_file):
 
             # Save the table we have so far.
             curves.append(Table(current_model, meta=meta))
+            meta = header_meta
         elif key == "START_EVENT":
             if len(colnames) == 0:
                 raise ValueError(f"Error on line= {l_num}: No filters defined.")
 
-            # Start a new light curve, but resetting the lists of data from the columns.
-            current_model["type"] = []  # Initialize the type list.
+            # Start a new light curve, with its own lists of data and meta information.
+            current_model = {"type": []}  # Initialize the type list.
             for col in colnames:
                 current_model[col] = []
+            meta = header_meta.copy()
             meta["id"] = value
         elif key == "S" or key == "T":
             # Save an observation or template to the current light curve.
-- 
2.43.0


From 8387be60c5341830b2946389521b69a3ab391aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 51/79] fix: GraphState.from_list stores a single sample
 without the sample dimension

---
 src/lightcurvelynx/graph_state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 1419a28..90f0370 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -348,6 +348,10 @@ class GraphState:
 
             # Create a numpy array that is the concatenation of all the values
             # from each of the GraphStates.
+            if total_samples == 1:
+                # A single sample is stored without the sample dimension.
+                result.set(node_name, param_name, graph_states[0][full_name])
+                continue
             values_list = []
             for current in graph_states:
                 current_values = np.atleast_1d(current[full_name])
-- 
2.43.0


From eda5053b1fc3dd530dd9b4f820300baa0830df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 52/79] fix: single samples computed by JAX do not restrict the
 models to single precision

---
 src/lightcurvelynx/graph_state.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 90f0370..f8349aa 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -26,6 +26,7 @@ of a host galaxy.
 
 from pathlib import Path
 
+import jax
 import numpy as np
 from astropy.io import ascii
 from astropy.table import Table
@@ -442,7 +443,11 @@ class GraphState:
 
         # Set the actual values.
         if self.num_samples == 1:
-            # If this GraphState holds only a single sample, set it from the given value.
+            # If this GraphState holds only a single sample, set it from the given value. As with multiple
+            # samples, the results of a JAX computation are not stored as JAX values (if they are not traced),
+            # so that the computations using them are not restricted to JAX's precision.
+            if isinstance(value, jax.Array) and not isinstance(value, jax.core.Tracer):
+                value = value.item() if value.ndim == 0 else np.asarray(value)
             self.states[node_name][var_name] = value
         elif np.isscalar(value):
             # If the value is a scalar, expand it to the correct number of samples.
-- 
2.43.0


From 1e4b8e2eecc00db979eac889d2cc0ab92f778705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 53/79] fix: the Roman preset accepts force_download and units

---
 src/lightcurvelynx/astro_utils/passbands.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index cb3075e..6ecaf97 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -356,12 +356,11 @@ class PassbandGroup:
         passbands = []
 
         # Check that units are what is expected for this preset.
-        if kwargs.get("units", "micron") != "micron":
-            raise ValueError(
-                f"Roman passbands are expected to be in microns (micron), but got {kwargs.get('units')}"
-            )
+        units = kwargs.pop("units", "micron")
+        if units != "micron":
+            raise ValueError(f"Roman passbands are expected to be in microns (micron), but got {units}")
 
-        force_download = kwargs.get("force_download", False)
+        force_download = kwargs.pop("force_download", False)
         table_path = table_dir / "Roman" / "roman_wfi_filters.ecsv"
         table_url = (
             "https://github.com/RomanSpaceTelescope/roman-technical-information/blob/main/data/"
-- 
2.43.0


From 2eb71cc2bee6569d6e41386de81d7d6353c2cae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 54/79] fix: text parameters survive saving and loading a
 GraphState, whatever they start with

---
 src/lightcurvelynx/graph_state.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index f8349aa..558f2ee 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -24,6 +24,7 @@ We could have one mean for an object's brightness and another for its positional
 of a host galaxy.
 """
 
+import csv
 from pathlib import Path
 
 import jax
@@ -261,8 +262,10 @@ class GraphState:
         filename : str or Path
             The name of the file.
         """
-        # The empty text is a value (not a marker of missing data).
-        data_table = ascii.read(filename, format="ecsv", fill_values=[])
+        # The empty text is a value (not a marker of missing data), and the white space is part of the values.
+        reader = ascii.get_reader(ascii.Ecsv, fill_values=[])
+        reader.data.splitter.process_val = None
+        data_table = reader.read(str(filename))
         return GraphState.from_table(data_table)
 
     @classmethod
@@ -660,7 +663,12 @@ class GraphState:
 
         data_table = self.to_table()
         with atomic_output_file(filename) as temp_path:
-            ascii.write(data_table, temp_path, format="ecsv", overwrite=True)
+            # Quote all the entries so that a text value can never be taken for a comment or a delimiter.
+            writer = ascii.get_writer(writer_cls=ascii.Ecsv, fast_writer=False, strip_whitespace=False)
+            writer.header.splitter.quoting = csv.QUOTE_ALL
+            writer.data.splitter.quoting = csv.QUOTE_ALL
+            with open(temp_path, "w", newline="", encoding="utf-8") as output_file:
+                output_file.write("\n".join(writer.write(data_table)) + "\n")
 
 
 class DependencyGraph:
-- 
2.43.0


From b13561d37d34163531b2a064b93684ccb75f0670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 55/79] fix: RandomMultiObjectModel finds the wavelength bounds
 of the selected object by its name

---
 src/lightcurvelynx/models/multi_object_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 6e7fbd8..52a6060 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -455,8 +455,9 @@ class RandomMultiObjectModel(MultiObjectModel):
             The minimum wavelength of the model (in angstroms) or None
             if the model does not have a defined minimum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].minwave(graph_state=graph_state)
+        selected = self.get_param(graph_state, "selected_object")
+        model = self.object_map[selected] if selected in self.object_map else self.objects[selected]
+        return model.minwave(graph_state=graph_state)
 
     def maxwave(self, graph_state=None):
         """Get the maximum wavelength of the model.
@@ -473,8 +474,9 @@ class RandomMultiObjectModel(MultiObjectModel):
             The maximum wavelength of the model (in angstroms) or None
             if the model does not have a defined maximum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].maxwave(graph_state=graph_state)
+        selected = self.get_param(graph_state, "selected_object")
+        model = self.object_map[selected] if selected in self.object_map else self.objects[selected]
+        return model.maxwave(graph_state=graph_state)
 
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
-- 
2.43.0


From 50a2c3287d3059f2e599e081a0f6e21a9f334019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 56/79] fix: RandomMultiObjectModel distinguishes unnamed
 objects of the same type

---
 src/lightcurvelynx/models/multi_object_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 52a6060..1c28050 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -435,7 +435,11 @@ class RandomMultiObjectModel(MultiObjectModel):
         super().__init__(objects, **kwargs)
 
         # Create a parameter to indicate which object was selected.
-        object_names = object_names or [src.node_string for src in objects]
+        if not object_names:
+            object_names = [src.node_string for src in objects]
+            if len(set(object_names)) < len(object_names):
+                # Objects of the same type are not distinguished by their default names.
+                object_names = [f"{name}_{idx}" for idx, name in enumerate(object_names)]
         self.object_map = {name: src for name, src in zip(object_names, objects, strict=False)}
         self._sampler_node = GivenValueSampler(object_names, weights=weights)
         self.add_parameter("selected_object", value=self._sampler_node, allow_gradient=False)
-- 
2.43.0


From d4830f2f510676e97c02a3cfd189b09b658a2073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 57/79] fix: DistributionSampler integrates the density instead
 of summing its values

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index 5ad86b4..a83c685 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -52,10 +52,11 @@ class DistributionSampler(FunctionNode):
             raise ValueError("Probability density function (y) must be non-negative.")
 
         # Create the CDF values (and normalize it to 1) and then create an interpolation
-        # of the inverse CDF function.
-        cdf_samples = np.cumsum(y)
+        # of the inverse CDF function. The CDF accounts for the distances between the x values.
+        x = np.asarray(x)
+        y = np.asarray(y)
+        cdf_samples = np.concatenate([[0.0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(x))])
         cdf_samples /= cdf_samples[-1]
-        # Draws below the first CDF sample map to the first x value (interp1d would raise otherwise).
         self._inv_cdf = interp1d(cdf_samples, x, kind=kind, bounds_error=False, fill_value=(x[0], x[-1]))
 
     def set_seed(self, new_seed):
-- 
2.43.0


From 4e2a85c5696c46fa83b740be3be4f79b03137dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 58/79] fix: ObsTableRADECSampler returns positions on the sky
 within the radius of their pointings

---
 .../math_nodes/ra_dec_sampler.py              | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index 8fd248e..710d88e 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -77,8 +77,8 @@ class ObsTableRADECSampler(TableSampler):
 
     Note
     ----
-    Does not currently use uniform sampling from the radius. Uses a very
-    rough approximate as a proof of concept. Do not use for statistical analysis.
+    Samples a pointing and then a position uniformly within the radius around its center. Overlapping
+    pointings are not accounted for.
 
     Parameters
     ----------
@@ -132,18 +132,25 @@ class ObsTableRADECSampler(TableSampler):
         results = super().compute(graph_state, rng_info=rng_info, **kwargs)
 
         if self.radius > 0.0:
-            # Add an offset around the center. This is currently a placeholder that does
-            # NOT produce a uniform sampling. TODO: Make this uniform sampling.
+            # Choose a distance from the center and a direction (position angle), such that the
+            # positions are uniform within the circle around the center.
             rng = rng_info if rng_info is not None else self._rng
-
-            # Choose a uniform circle around the center point. Not that this is not uniform over
-            # the final RA, dec because it does not account for compression in dec around the polls.
-            offset_amt = self.radius * np.sqrt(rng.uniform(0.0, 1.0, size=graph_state.num_samples))
-            offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=graph_state.num_samples)
-
-            # Add the offsets to RA and dec. Keep time unchanged.
-            results[0] += offset_amt * np.cos(offset_ang)  # RA
-            results[1] += offset_amt * np.sin(offset_ang)  # dec
+            size = None if graph_state.num_samples == 1 else graph_state.num_samples
+            half_radius = np.radians(min(self.radius, 180.0)) / 2.0
+            offset_amt = 2.0 * np.arcsin(np.sin(half_radius) * np.sqrt(rng.uniform(0.0, 1.0, size=size)))
+            offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=size)
+
+            # Move along the great circle. Keep time unchanged.
+            ra = np.radians(results[0])
+            dec = np.radians(results[1])
+            sin_dec = np.sin(dec) * np.cos(offset_amt) + np.cos(dec) * np.sin(offset_amt) * np.cos(offset_ang)
+            new_dec = np.arcsin(np.clip(sin_dec, -1.0, 1.0))
+            delta_ra = np.arctan2(
+                np.sin(offset_ang) * np.sin(offset_amt) * np.cos(dec),
+                np.cos(offset_amt) - np.sin(dec) * sin_dec,
+            )
+            results[0] = np.degrees(ra + delta_ra)
+            results[1] = np.degrees(new_dec)
 
             # Resave the results (overwriting the previous results)
             self._save_results(results, graph_state)
-- 
2.43.0


From 0a9289c5e79dae0d380afa39c531bb5f2c33767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:23 +0000
Subject: [PATCH 59/79] fix: order the filters of multi light curve templates
 reproducibly

The parameters (and with them the names of the nodes) were added in the
order of a set of strings, which depends on the hash seed of the process.
---
 .../models/lightcurve_template_model.py              | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 24cd542..de71b8e 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -230,8 +230,7 @@ class LightcurveData:
         if filters is None:
             filters = filter_cols
         else:
-            to_keep = set(filter_cols) & set(filters)
-            filters = list(to_keep)
+            filters = [col for col in filter_cols if col in set(filters)]
         if len(filters) == 0:
             raise ValueError("Light curves table must have at least one filter column.")
 
@@ -787,14 +786,15 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
         **kwargs,
     ):
         # Validate the light curve input and create a union of all filters used.
-        self.all_filters = set()
+        filters = {}  # In the order in which they are first used (a set has no reproducible order).
         for lc in lightcurves:
             if not isinstance(lc, LightcurveData):
                 raise TypeError("Each light curve must be an instance of LightcurveData.")
-            self.all_filters.update(lc.filters)
+            filters.update(dict.fromkeys(lc.filters))
+        self.all_filters = set(filters)
         self.lightcurves = lightcurves
 
-        super().__init__(passbands, filters=list(self.all_filters), **kwargs)
+        super().__init__(passbands, filters=list(filters), **kwargs)
 
         all_inds = [i for i in range(len(lightcurves))]
         self._sampler_node = GivenValueSampler(all_inds, weights=weights)
@@ -804,7 +804,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
         # Create a parameter to track the baseline values for the selected light curve. The node
         # will automatically fill in the correct baseline value based on the index given by
         # the selected_lightcurve parameter.
-        for fltr in self.all_filters:
+        for fltr in filters:
             baselines = [lc.baseline.get(fltr, 0.0) for lc in lightcurves]
             baseline_selector = GivenValueSelector(baselines, self.selected_lightcurve)
             self.add_parameter(f"baseline_{fltr}", value=baseline_selector, allow_gradient=False)
-- 
2.43.0


From 0e44affb61822bea35e900b4acbccc9930701e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 60/79] fix: a survey can be oversampled with any number of
 times per band

---
 src/lightcurvelynx/obstable/opsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/opsim.py b/src/lightcurvelynx/obstable/opsim.py
index 622fb73..7920d25 100644
--- a/src/lightcurvelynx/obstable/opsim.py
+++ b/src/lightcurvelynx/obstable/opsim.py
@@ -324,7 +324,7 @@ def oversample_opsim(
             "time": new_times,
             "ra": ra,
             "dec": dec,
-            "filter": np.tile(bands, n // len(bands)),
+            "filter": np.resize(bands, n),
         }
     )
     other_columns = [column for column in observations.columns if column not in new_table.columns]
-- 
2.43.0


From 8b704136d4eb519150edddfa6ce4ffca54f25343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 61/79] fix: oversample_opsim takes one darkest visit per band
 when row labels are repeated

---
 src/lightcurvelynx/obstable/opsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/opsim.py b/src/lightcurvelynx/obstable/opsim.py
index 7920d25..4416f94 100644
--- a/src/lightcurvelynx/obstable/opsim.py
+++ b/src/lightcurvelynx/obstable/opsim.py
@@ -294,7 +294,8 @@ def oversample_opsim(
 
     """
     ra, dec = pointing
-    observations = opsim._table.iloc[opsim.range_search(ra, dec, radius=search_radius)]
+    # Drop the row labels, which are arbitrary (and may be repeated).
+    observations = opsim._table.iloc[opsim.range_search(ra, dec, radius=search_radius)].reset_index(drop=True)
     if len(observations) == 0:
         raise ValueError("No observations found for the given pointing.")
 
-- 
2.43.0


From 7416df1c4b591b4233c2d9e9c0478fbf8a3e74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 62/79] fix: the SNIa example draws its samples and noise from
 the caller's generator

---
 src/lightcurvelynx/example_runs/simulate_snia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/example_runs/simulate_snia.py b/src/lightcurvelynx/example_runs/simulate_snia.py
index 5122ec4..f2183c7 100644
--- a/src/lightcurvelynx/example_runs/simulate_snia.py
+++ b/src/lightcurvelynx/example_runs/simulate_snia.py
@@ -203,12 +203,12 @@ def draw_single_random_sn(
     res["flux_fnu"] = flux_nJy
 
     # Compute the band_flixes over just the given filters.
-    bandfluxes_perfect = source.evaluate_bandfluxes(passbands, times, filters, state)
+    bandfluxes_perfect = source.evaluate_bandfluxes(passbands, times, filters, state, rng_info=rng_info)
     res["bandfluxes_perfect"] = bandfluxes_perfect
 
     bandfluxes_error = opsim.bandflux_error_point_source(bandfluxes_perfect, obs_index)
     res["bandfluxes_error"] = bandfluxes_error
-    res["bandfluxes"] = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=None)
+    res["bandfluxes"] = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng_info)
 
     res["state"] = state
 
@@ -274,7 +274,7 @@ def run_snia_end2end(
     passbands = load_and_register_passband(passbands_dir, to_use=["g", "r"])
 
     logger.info(f"Sampling {nsample} states.")
-    sample_states = source.sample_parameters(num_samples=nsample)
+    sample_states = source.sample_parameters(num_samples=nsample, rng_info=rng_info)
 
     res_list = []
     for i in range(0, nsample):
-- 
2.43.0


From 808b70abe380c182e7622f39b3e841d49fc8ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 63/79] fix: the SNIa example reads its visits by position, not
 by label

---
 src/lightcurvelynx/example_runs/simulate_snia.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/example_runs/simulate_snia.py b/src/lightcurvelynx/example_runs/simulate_snia.py
index f2183c7..c319ff0 100644
--- a/src/lightcurvelynx/example_runs/simulate_snia.py
+++ b/src/lightcurvelynx/example_runs/simulate_snia.py
@@ -173,20 +173,20 @@ def draw_single_random_sn(
     res = {"wavelengths_rest": wavelengths_rest}
 
     # Find the times at which this source is seen.
-    obs_index = np.array(opsim.range_search(ra, dec, radius=1.75))
+    obs_index = np.array(opsim.range_search(ra, dec, radius=1.75), dtype=int)
 
     # Update obs_index to only include observations within SN lifespan
-    phase_obs = opsim["time"][obs_index] - t0
+    phase_obs = opsim["time"].to_numpy()[obs_index] - t0
     obs_index = obs_index[(phase_obs > -20 * (1.0 + z)) & (phase_obs < 50 * (1.0 + z))]
 
     # Extract the timing and filter information for those observations, changing the
     # match band names in passbands object.
-    times = opsim["time"][obs_index].to_numpy()
+    times = opsim["time"].to_numpy()[obs_index]
     if len(times) == 0:
         logger.warning(f"No overlap time in opsim for (ra,dec)=({ra:.2f},{dec:.2f})")
     res["times"] = times
 
-    filters = opsim["filter"][obs_index].to_numpy(str)
+    filters = opsim["filter"].to_numpy(str)[obs_index]
     filters = np.char.add("LSST_", filters)
     res["filters"] = filters
 
-- 
2.43.0


From 559f6c97b8065790fc5f7ac36fdbb653984ce68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 64/79] fix: light curves with non-positive fluxes can be
 augmented

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 8092744..3387dcb 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -144,7 +144,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     # Compute SNR and detection flag.
     snr = lightcurve_compute_snr(flux, fluxerr)
     results["lightcurve.snr"] = snr
-    results["lightcurve.detection"] = [(x is not None and x >= min_snr) for x in snr]
+    results["lightcurve.detection"] = [(x is not ma.masked and x >= min_snr) for x in snr]
 
     # Compute magnitude and magnitude error.
     mag, magerr = lightcurve_compute_mag(flux, fluxerr)
-- 
2.43.0


From 0537e926189e9fb4dfae97820f1698cc388a7ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 65/79] fix: relative times use each object's own reference
 time, whatever the row labels

---
 src/lightcurvelynx/utils/post_process_results.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 3387dcb..6ba43f7 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -156,8 +156,8 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-        # Get the index for the t0 entry for each lightcurve MJD and use that
-        # to subtract out the reference t0.
-        t0 = np.asanyarray(results["t0"])
-        t0_idx = np.array(results["lightcurve"]["mjd"].index)
-        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0[t0_idx]
+        # Repeat each object's t0 for each of its observations (matching by position, because
+        # the labels are arbitrary once the results have been filtered, sorted or combined) and
+        # use that to subtract out the reference t0.
+        t0 = np.repeat(np.asarray(results["t0"], dtype=float), results["lightcurve"].nest.list_lengths)
+        results["lightcurve.time_rel"] = np.asarray(results["lightcurve.mjd"], dtype=float) - t0
-- 
2.43.0


From b8cbb18c8cf6a33ebcb24194fcb8ba41b7e74537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 66/79] fix: a reference time of zero does not suppress the
 relative times

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 6ba43f7..064c8eb 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -152,7 +152,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     results["lightcurve.magerr"] = magerr
 
     # If t0 is provided as a column in results, compute relative time.
-    if "t0" in results.columns and np.all(results["t0"]) and results["t0"].notna().all():
+    if "t0" in results.columns and results["t0"].notna().all():
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-- 
2.43.0


From 9615f3d781dcee18564378a2ae3815585398f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 67/79] fix: results_drop_empty also drops light curves without
 rows

---
 src/lightcurvelynx/utils/post_process_results.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 064c8eb..6691cf0 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -21,7 +21,9 @@ def results_drop_empty(results):
     nested_pandas.NestedFrame
         The DataFrame with empty lightcurves removed.
     """
-    return results.dropna(subset=["lightcurve"])
+    # Setting a nested column (e.g. augmenting the results) replaces missing light curves by
+    # ones without any rows, so count the rows instead of looking for missing values.
+    return results[results["lightcurve"].nest.list_lengths > 0].copy()
 
 
 def lightcurve_compute_snr(flux, fluxerr):
-- 
2.43.0


From 1d0251d1d2427b7f3438e67178b43f9a2dcdf18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 68/79] fix: copies of single-sample states do not share their
 arrays with the original

---
 src/lightcurvelynx/graph_state.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 558f2ee..8cad3ca 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -201,10 +201,9 @@ class GraphState:
         for node_name, node_vars in self.states.items():
             new_state.states[node_name] = {}
             for var_name, var_value in node_vars.items():
-                if self.num_samples == 1:
-                    new_state.states[node_name][var_name] = var_value
-                else:
-                    new_state.states[node_name][var_name] = var_value.copy()
+                if isinstance(var_value, np.ndarray):
+                    var_value = var_value.copy()
+                new_state.states[node_name][var_name] = var_value
         for node_name, fixed_vars in self.fixed_vars.items():
             new_state.fixed_vars[node_name] = fixed_vars.copy()
         return new_state
@@ -451,6 +450,8 @@ class GraphState:
             # so that the computations using them are not restricted to JAX's precision.
             if isinstance(value, jax.Array) and not isinstance(value, jax.core.Tracer):
                 value = value.item() if value.ndim == 0 else np.asarray(value)
+            if force_copy and isinstance(value, np.ndarray):
+                value = value.copy()
             self.states[node_name][var_name] = value
         elif np.isscalar(value):
             # If the value is a scalar, expand it to the correct number of samples.
-- 
2.43.0


From c392c69bdcb46e4e7aa8b78b83cb081a8c839683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:46 +0000
Subject: [PATCH 69/79] fix: RomanObsTable no longer changes the caller's table
 and uses ma_table_path

---
 src/lightcurvelynx/obstable/roman_obstable.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index db90386..bbb8d87 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -59,11 +59,11 @@ def _get_roman_char():
 
 def _get_ma_table(ma_table_path=None):
     if ma_table_path is None:
-        ma_table_file = (
+        ma_table_path = (
             _LIGHTCURVELYNX_BASE_DATA_DIR
             / "roman_characterization/roman_wfi_imaging_multiaccum_tables_with_exptime.csv"
         )
-    ma_table = pd.read_csv(ma_table_file)
+    ma_table = pd.read_csv(ma_table_path)
 
     return ma_table
 
@@ -103,7 +103,8 @@ class RomanObsTable(ObsTable):
     def __init__(self, table, colmap=None, ma_table_path=None, **kwargs):
         colmap = self._default_colnames if colmap is None else colmap
 
-        self.apt_table = table
+        # Work on a copy, so we do not add columns to the user's table.
+        self.apt_table = pd.DataFrame(table) if isinstance(table, dict) else table.copy()
         self.ma_table = _get_ma_table(ma_table_path)
         roman_char = _get_roman_char()
         self.zp_table = roman_char["zp_table"]
-- 
2.43.0


From e6bc98e8458272ecb5fc7ee112ee580ad4c6eccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:46 +0000
Subject: [PATCH 70/79] fix: ObsTable.is_observed with a scalar RA and an array
 of declinations

---
 src/lightcurvelynx/obstable/obs_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 42b8e89..1691060 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -528,7 +528,7 @@ class ObsTable:
             of query points.
         """
         inds = self.range_search(query_ra, query_dec, radius=radius, t_min=t_min, t_max=t_max)
-        if np.isscalar(query_ra):
+        if np.isscalar(query_ra) and np.isscalar(query_dec):
             return len(inds) > 0
         return [len(entry) > 0 for entry in inds]
 
-- 
2.43.0


From 18e2e7b075b7b6fcc55183aea5445aee6db98a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:26 +0000
Subject: [PATCH 71/79] fix: ObsTable.filters follows row filtering and changes
 of the filter column

---
 src/lightcurvelynx/obstable/obs_table.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 1691060..76629d8 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -130,7 +130,6 @@ class ObsTable:
         for key, value in kwargs.items():
             self.survey_values[key] = value
 
-        self.filters = np.unique(self._table["filter"]) if "filter" in self._table.columns else np.array([])
 
         # The kd-tree is built once the table is complete.
         self._kd_tree = None
@@ -241,6 +240,11 @@ class ObsTable:
             raise ValueError(f"Invalid radius: {new_val}")
         self.survey_values["radius"] = new_val
 
+    @property
+    def filters(self):
+        """Get the unique filters in the survey table."""
+        return np.unique(self._table["filter"]) if "filter" in self._table.columns else np.array([])
+
     @property
     def columns(self):
         """Get the column names."""
-- 
2.43.0


From aa6fbe72be90728c0fa62009dbb0bf42dc617f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:26 +0000
Subject: [PATCH 72/79] fix: MultiObjectModel.set_apply_redshift reaches the
 SED models, not the bandflux ones

---
 src/lightcurvelynx/models/multi_object_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 1c28050..b8aea7f 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -87,7 +87,7 @@ class MultiObjectModel(SEDModel):
             The new value for apply_redshift.
         """
         for idx, object in enumerate(self.objects):
-            if self._is_bandflux[idx]:
+            if not self._is_bandflux[idx]:
                 object.set_apply_redshift(apply_redshift)
 
     def add_effect(self, effect):
-- 
2.43.0


From 71b5d9a93728ae5877c19007464102e1987320fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:53 +0000
Subject: [PATCH 73/79] fix: evaluation keyword arguments also reach
 compute_sed when wavelengths are extrapolated

---
 src/lightcurvelynx/models/physical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 10512de..cab0fab 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -405,7 +405,7 @@ class SEDModel(BasePhysicalModel):
         # A requested wavelength can coincide with a bound, so only query each value once.
         padded_waves = np.concatenate(([min_valid_wave], wavelengths[in_range], [max_valid_wave]))
         query_waves, padded_index = np.unique(padded_waves, return_inverse=True)
-        computed_flux = self.compute_sed(times, query_waves, graph_state)[:, padded_index]
+        computed_flux = self.compute_sed(times, query_waves, graph_state, **kwargs)[:, padded_index]
 
         # Initially zero pad the full array until we fill in the values with extrapolation.
         # We drop the first and last flux values since they were added to get the flux at the
-- 
2.43.0


From e072bf5d10ddb1c3f8a5a976b547cd0f1eaf282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:21 +0000
Subject: [PATCH 74/79] fix: a saved RomanObsTable can be read back

---
 src/lightcurvelynx/obstable/roman_obstable.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index bbb8d87..37f3d45 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -91,6 +91,16 @@ class RomanObsTable(ObsTable):
     # Default column names for the ZTF survey data.
     _default_colnames = {"dec": "DEC", "filter": "BANDPASS", "ra": "RA", "zp": "zp_nJy", "time": "time"}
 
+    # The columns added to the APT table.
+    _derived_columns = {
+        "zp_abmag",
+        "N_Eff_Pix",
+        "zodi_countrate_min",
+        "thermal_countrate",
+        "time",
+        "exptime",
+    }
+
     # Default survey values.
     _default_survey_values = {
         "dark_current": _roman_dark_current,
@@ -111,7 +121,11 @@ class RomanObsTable(ObsTable):
         self.psf_table = roman_char["psf_table"]
         self.thermal_table = roman_char["thermal_table"]
         self.zodiacal_table = roman_char["zodiacal_min_table"]
-        self._append_apt_table()
+        self.start_time = 61304.0
+        self.cadence = 5.0
+        # A table that was saved from a RomanObsTable already has the derived columns.
+        if not self._derived_columns.issubset(self.apt_table.columns):
+            self._append_apt_table()
 
         super().__init__(self.apt_table, colmap=colmap, **kwargs)
 
@@ -138,8 +152,6 @@ class RomanObsTable(ObsTable):
             self.apt_table.loc[mat_number == self.apt_table.MA_TABLE_NUMBER, "exptime"] = exptime
 
         npass = len(np.unique(self.apt_table.PASS))
-        self.start_time = 61304.0
-        self.cadence = 5.0
         times = self.start_time + self.cadence * np.arange(npass)
         for i, pass_num in enumerate(np.unique(self.apt_table.PASS)):
             self.apt_table.loc[pass_num == self.apt_table.PASS, "time"] = times[i]
-- 
2.43.0


From ea22afb48a4182e8350ff3193fa403b4485eeb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:30 +0000
Subject: [PATCH 75/79] fix: draw_single_random_sn with a position given as a
 length-1 array

---
 src/lightcurvelynx/example_runs/simulate_snia.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/example_runs/simulate_snia.py b/src/lightcurvelynx/example_runs/simulate_snia.py
index c319ff0..8dec771 100644
--- a/src/lightcurvelynx/example_runs/simulate_snia.py
+++ b/src/lightcurvelynx/example_runs/simulate_snia.py
@@ -162,8 +162,9 @@ def draw_single_random_sn(
         state = source.sample_parameters(rng_info=rng_info)
 
     # Extract some important parameters that we need to use.
-    ra = state["source"]["ra"]
-    dec = state["source"]["dec"]
+    # Some samplers return a length 1 array for a single position.
+    ra = np.asarray(state["source"]["ra"]).item()
+    dec = np.asarray(state["source"]["dec"]).item()
     t0 = state["source"]["t0"]
     z = state["source"]["redshift"]
 
-- 
2.43.0


From e0cc22d21235667e6ce81c314049d6457f4872df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:57 +0000
Subject: [PATCH 76/79] fix: MultiObjectModel.set_apply_redshift is rejected
 for bandflux members before anything changes

---
 src/lightcurvelynx/models/multi_object_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index b8aea7f..166fffe 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -86,9 +86,10 @@ class MultiObjectModel(SEDModel):
         apply_redshift : bool
             The new value for apply_redshift.
         """
-        for idx, object in enumerate(self.objects):
-            if not self._is_bandflux[idx]:
-                object.set_apply_redshift(apply_redshift)
+        if self._any_bandflux:
+            raise NotImplementedError("BandfluxModel does not support apply_redshift.")
+        for object in self.objects:
+            object.set_apply_redshift(apply_redshift)
 
     def add_effect(self, effect):
         """Add an effect to each of the submodels.
-- 
2.43.0


From 71566fcd23848c44278a973667efce36d5c1a41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:52 +0000
Subject: [PATCH 77/79] fix: a composite with a composite of bandflux members
 counts as having bandflux members

---
 src/lightcurvelynx/models/multi_object_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 166fffe..2daee13 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -53,7 +53,7 @@ class MultiObjectModel(SEDModel):
         self._is_bandflux = [False] * len(objects)
         self._any_bandflux = False
         for idx, object in enumerate(objects):
-            if isinstance(object, BandfluxModel):
+            if isinstance(object, BandfluxModel) or getattr(object, "_any_bandflux", False):
                 self._is_bandflux[idx] = True
                 self._any_bandflux = True
             elif not isinstance(object, BasePhysicalModel):
-- 
2.43.0


From 4a156f6b2baacb739a301cb59bd1c66320bf4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:08 +0000
Subject: [PATCH 78/79] fix: observer-frame effects of a composite of SED
 models also work without a bandflux form

---
 .../models/multi_object_model.py              | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2daee13..2948e3f 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -375,6 +375,18 @@ class AdditiveMultiObjectModel(MultiObjectModel):
         bandfluxes : numpy.ndarray
             A length T array of band fluxes for this sample.
         """
+        if self.obs_frame_effects and not self._any_bandflux:
+            # All of the objects have SEDs, so the effects are applied to the combined SED before it is
+            # integrated with the filters (as in any other SED model).
+            return SEDModel._evaluate_bandfluxes_single(
+                self,
+                passband_group,
+                times,
+                filters,
+                state,
+                rng_info=rng_info,
+            )
+
         # Compute the band fluxes as the weighted sum of all bandfluxes. All models will have rest frame
         # effects applied prior to summing. In the case of full SED models, the effects will be applied
         # to the entire SED before integrating with the filters to compute the band fluxes.
@@ -560,6 +572,18 @@ class RandomMultiObjectModel(MultiObjectModel):
         bandfluxes : numpy.ndarray
             A length T array of band fluxes for this sample.
         """
+        if self.obs_frame_effects and not self._any_bandflux:
+            # All of the objects have SEDs, so the effects are applied to the combined SED before it is
+            # integrated with the filters (as in any other SED model).
+            return SEDModel._evaluate_bandfluxes_single(
+                self,
+                passband_group,
+                times,
+                filters,
+                state,
+                rng_info=rng_info,
+            )
+
         # Use the model selected by the sampler node to compute the flux density.
         model_name = self.get_param(state, "selected_object")
         bandfluxes = self.object_map[model_name]._evaluate_bandfluxes_single(
-- 
2.43.0


From 5648671734ff88876bf051503c231260fcee7043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:08 +0000
Subject: [PATCH 79/79] fix: a model with one wavelength limit is never
 evaluated beyond it

---
 src/lightcurvelynx/models/physical_model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index cab0fab..ee4d745 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -383,14 +383,15 @@ class SEDModel(BasePhysicalModel):
             A length T x N matrix of SED values (in nJy).
         """
         min_query_wave = np.min(wavelengths)
-        min_valid_wave = self.minwave(graph_state=graph_state)
-        if min_valid_wave is None:
-            min_valid_wave = min_query_wave
-
         max_query_wave = np.max(wavelengths)
+        min_valid_wave = self.minwave(graph_state=graph_state)
         max_valid_wave = self.maxwave(graph_state=graph_state)
+
+        # A side without a limit is bounded by the query (but never past the limit of the other side).
+        if min_valid_wave is None:
+            min_valid_wave = min_query_wave if max_valid_wave is None else min(min_query_wave, max_valid_wave)
         if max_valid_wave is None:
-            max_valid_wave = max_query_wave
+            max_valid_wave = max(max_query_wave, min_valid_wave)
 
         # If no extrapolation is needed, just call compute SED.
         if min_query_wave >= min_valid_wave and max_query_wave <= max_valid_wave:
-- 
2.43.0

