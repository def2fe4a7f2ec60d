From bd6f260df8d3f32cda3e8e005f7e8c670f0b416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 01/56] fix: make regularly binned 1D maps usable

The lower and upper edges have shape (1,), so jnp.linspace returned a 2D array of reference
positions, which searchsorted rejects: every 1D regbin or log_regbin map failed when applied.
---
 appletree/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 4f79a70..e7a2f1c 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -109,7 +109,7 @@ def map_interpolator_regular_binning_1d(pos, ref_pos_lowers, ref_pos_uppers, ref
     """
     assert len(pos.shape) == 1, "pos must have 1 columns"
 
-    ref_pos = jnp.linspace(ref_pos_lowers, ref_pos_uppers, len(ref_val))
+    ref_pos = jnp.linspace(ref_pos_lowers[0], ref_pos_uppers[0], len(ref_val))
     val = curve_interpolator(pos, ref_pos, ref_val)
 
     return val
-- 
2.43.0


From 56cfde4451b5bb143bc760ebcc73abf09a7feafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 02/56] fix: honour the interpolation method of regularly
 binned 1D maps

A 1D regbin map declared with the nearest neighbor method was interpolated linearly, and an
unknown method was accepted, unlike for point maps and for 2D and 3D regbin maps.
---
 appletree/config.py        | 14 ++++++++++----
 appletree/interpolation.py | 19 +++++++++++++++++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 4845980..f2b6846 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -187,6 +187,13 @@ class Map(Config):
         "LERP": interpolation.map_interpolator_linear_1d,
     }
 
+    # IDW with the two neighbors of a point is the linear interpolation in 1D
+    _REGBIN_INTERPOLATORS_1D = {
+        "IDW": interpolation.map_interpolator_regular_binning_1d,
+        "LERP": interpolation.map_interpolator_regular_binning_1d,
+        "NN": interpolation.map_interpolator_regular_binning_nearest_neighbor_1d,
+    }
+
     _REGBIN_INTERPOLATORS = {
         (2, "IDW"): interpolation.map_interpolator_regular_binning_2d,
         (2, "LERP"): interpolation.map_interpolator_regular_binning_bilinear_2d,
@@ -342,11 +349,10 @@ class Map(Config):
 
     def _get_regbin_interpolator(self, ndim):
         """Return the regular-binning interpolator for the given dimensionality."""
-        if ndim == 1:
-            return interpolation.map_interpolator_regular_binning_1d
-        key = (ndim, self.method)
         try:
-            return self._REGBIN_INTERPOLATORS[key]
+            if ndim == 1:
+                return self._REGBIN_INTERPOLATORS_1D[self.method]
+            return self._REGBIN_INTERPOLATORS[(ndim, self.method)]
         except KeyError:
             raise ValueError(f"Unknown method {self.method} " f"for {ndim}D regular binning.")
 
diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index e7a2f1c..1c7096a 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -373,6 +373,25 @@ def map_interpolator_nearest_neighbor_1d(pos, ref_pos, ref_val):
     return val
 
 
+@export
+@jit
+def map_interpolator_regular_binning_nearest_neighbor_1d(
+    pos, ref_pos_lowers, ref_pos_uppers, ref_val
+):
+    """Nearest neighbor 1D interpolation.
+
+    A uniform mesh grid binning is assumed.
+        Args:
+            pos: array with shape (N,), positions at which the interp is calculated.
+            ref_pos_lowers: array with shape (1,), the lower edges of the binning on each dimension.
+            ref_pos_uppers: array with shape (1,), the upper edges of the binning on each dimension.
+            ref_val: array with shape (M1,), map values.
+
+    """
+    ref_pos = jnp.linspace(ref_pos_lowers[0], ref_pos_uppers[0], len(ref_val))
+    return map_interpolator_nearest_neighbor_1d(pos, ref_pos, ref_val)
+
+
 @export
 @jit
 def map_interpolator_regular_binning_nearest_neighbor_2d(
-- 
2.43.0


From eb153e9c9e2eeeb884d514e6817fcaf5bb7c98e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 03/56] fix: do not take the logarithm of the values of
 log_point maps

Only the coordinates of a log_point map are log-scaled, as for log_regbin maps. Its values were
also passed through preprocess, so apply returned log10 of the value.
---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index f2b6846..e8e6a93 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -272,7 +272,7 @@ class Map(Config):
         val = self.interpolator(
             self.preprocess(pos),
             self.preprocess(self.coordinate_system),
-            self.preprocess(self.map),
+            self.map,
         )
         return val
 
-- 
2.43.0


From f33c25c7d802e32c801b3b1cbee17738a20ad29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 04/56] fix: avoid overflow of IDW interpolation at the
 reference points

The inverse of the clipped distance is close to the largest float32, so at a reference point of a
2D or 3D regbin map with a value larger than about 4 the weighted sum overflowed to inf.
---
 appletree/interpolation.py | 40 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 1c7096a..a295d03 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -157,8 +157,12 @@ def map_interpolator_regular_binning_2d(pos, ref_pos_lowers, ref_pos_uppers, ref
     dr3 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos3 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
     dr4 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos4 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
 
-    val = val1 / dr1 + val2 / dr2 + val3 / dr3 + val4 / dr4
-    val /= 1.0 / dr1 + 1.0 / dr2 + 1.0 / dr3 + 1.0 / dr4
+    # Scale the weights with the smallest distance to avoid overflow at the reference points
+    dr_min = jnp.min(jnp.stack([dr1, dr2, dr3, dr4]), axis=0)
+    w1, w2, w3, w4 = dr_min / dr1, dr_min / dr2, dr_min / dr3, dr_min / dr4
+
+    val = val1 * w1 + val2 * w2 + val3 * w3 + val4 * w4
+    val /= w1 + w2 + w3 + w4
 
     return val
 
@@ -221,26 +225,22 @@ def map_interpolator_regular_binning_3d(pos, ref_pos_lowers, ref_pos_uppers, ref
     dr7 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos7 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
     dr8 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos8 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
 
+    # Scale the weights with the smallest distance to avoid overflow at the reference points
+    dr_min = jnp.min(jnp.stack([dr1, dr2, dr3, dr4, dr5, dr6, dr7, dr8]), axis=0)
+    w1, w2, w3, w4 = dr_min / dr1, dr_min / dr2, dr_min / dr3, dr_min / dr4
+    w5, w6, w7, w8 = dr_min / dr5, dr_min / dr6, dr_min / dr7, dr_min / dr8
+
     val = (
-        val1 / dr1
-        + val2 / dr2
-        + val3 / dr3
-        + val4 / dr4
-        + val5 / dr5
-        + val6 / dr6
-        + val7 / dr7
-        + val8 / dr8
-    )
-    val /= (
-        1.0 / dr1
-        + 1.0 / dr2
-        + 1.0 / dr3
-        + 1.0 / dr4
-        + 1.0 / dr5
-        + 1.0 / dr6
-        + 1.0 / dr7
-        + 1.0 / dr8
+        val1 * w1
+        + val2 * w2
+        + val3 * w3
+        + val4 * w4
+        + val5 * w5
+        + val6 * w6
+        + val7 * w7
+        + val8 * w8
     )
+    val /= w1 + w2 + w3 + w4 + w5 + w6 + w7 + w8
 
     return val
 
-- 
2.43.0


From ff9fa643b02f816dbfd94c7b9e4b59269b13032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 05/56] fix: use independent seeds in twohalfnorm

The side and the distance from mu were drawn with the same seed, so they were correlated and the
sampled distribution was not the two half normal of TwoHalfNorm for asymmetric sigmas.
---
 appletree/randgen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 6d9a3ea..1e0d52d 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -640,6 +640,7 @@ def twohalfnorm(key, mu, sigma_pos, sigma_neg, shape=()):
     use_pos_half = random.uniform(seed, shape, minval=0.0, maxval=1.0) < pos_half_prob
     use_neg_half = ~use_pos_half
 
+    key, seed = random.split(key)
     n_sigma = jnp.abs(random.normal(seed, shape=shape))
     offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
     rvs = offset + mu
-- 
2.43.0


From 9ce4d843a84322b4bee621bc540359829b72d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 06/56] fix: allow more than one simulated component in a
 likelihood

Deducing the second ComponentSim of a likelihood raised that the likelihood is already cached,
although its function and plugin instances carry the name of the component. Share the namespace of
the likelihood, and keep raising when a function or an instance would be overwritten.
---
 appletree/component.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index de7c5d6..a6de58b 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -381,13 +381,8 @@ class ComponentSim(Component):
         output = "key, " + "[" + ", ".join(data_names) + "]"
         code += f"{indent}return {output}\n"
 
-        self.code = code
         self.instances = instances
-
-        if func_name in _cached_functions[self.llh_name].keys():
-            warning = f"Function name {func_name} is already cached. "
-            warning += "Running compile() will overwrite it."
-            warn(warning)
+        self.code = code
 
     @property
     def code(self):
@@ -397,8 +392,16 @@ class ComponentSim(Component):
     @code.setter
     def code(self, code):
         self._code = code
-        _cached_functions[self.llh_name] = dict()
-        self._compile = partial(exec, self.code, _cached_functions[self.llh_name])
+        # All components of a likelihood share the namespace, but they should never
+        # overwrite the function or the plugins of each other
+        names = {self.func_name} | self.instances
+        namespace = _cached_functions.get(self.llh_name)
+        if namespace is None or not names.isdisjoint(namespace):
+            namespace = dict()
+            _cached_functions[self.llh_name] = namespace
+        # Reserve the names until they are compiled
+        namespace.update(dict.fromkeys(names))
+        self._compile = partial(exec, self.code, namespace)
 
     def deduce(
         self,
-- 
2.43.0


From 8ceefe736879159806e4820487e446ee02fc24af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 07/56] fix: allow multiple_simulations_compile without the g4
 config

The g4 config only exists for components with a Bootstrap energy plugin, others raised KeyError.
---
 appletree/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index a6de58b..5c2b00b 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -113,7 +113,7 @@ class Component:
         limit of GPU."""
         results_pile = []
         for _ in range(times):
-            if _cached_configs["g4"] and self._use_mcinput:
+            if self._use_mcinput and _cached_configs["g4"]:
                 if isinstance(_cached_configs["g4"], dict):
                     g4_file_name = _cached_configs["g4"][self.llh_name][0]
                     _cached_configs["g4"][self.llh_name] = [
-- 
2.43.0


From 5a2ba2e24536d53a7d5cc5183fc2a2118ab77ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 08/56] fix: report the configs of the plugin instance in its
 lineage

The configs in takes_config are shared by all instances and hold the values of the last built one,
so with per-likelihood configs the lineage of a plugin showed the values of another likelihood.
---
 appletree/plugin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/plugin.py b/appletree/plugin.py
index 212ad6b..cc976d4 100644
--- a/appletree/plugin.py
+++ b/appletree/plugin.py
@@ -100,7 +100,8 @@ class Plugin:
             "takes_config": dict(
                 zip(
                     self.takes_config.keys(),
-                    [v.lineage for v in self.takes_config.values()],
+                    # the instance has its own configs, those in takes_config are shared
+                    [getattr(self, k).lineage for k in self.takes_config.keys()],
                 )
             ),
         }
-- 
2.43.0


From a91165c1a9649d675c9acd0c8d64f8672961facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 09/56] fix: format the GPU memory fraction with two digits

Fractions smaller than 0.1 lost their leading zero (0.05 became .5), and 1.0 became .100.
---
 appletree/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 6b08084..e7c80d5 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -267,11 +267,11 @@ def set_gpu_memory_usage(fraction=0.3):
     See more on https://jax.readthedocs.io/en/latest/gpu_memory_allocation.html
 
     """
-    if fraction > 1:
-        fraction = 0.99
     if fraction <= 0:
         raise ValueError("fraction must be positive!")
-    os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = f".{int(fraction * 100):d}"
+    # At least 0.01 and at most 0.99, with two digits
+    percent = min(max(int(round(fraction * 100)), 1), 99)
+    os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = f".{percent:02d}"
 
 
 @export
-- 
2.43.0


From 4ad74c2f2c3b537d513d3f25d9a0b3b573fbfba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 10/56] fix: parse the instruct saved in the backend as json

It is dumped as json but was evaluated as Python, so from_backend failed when the instruct contains
true, false or null, e.g. for literature_lyqy.json.
---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 2e49d3e..def8b48 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -60,7 +60,7 @@ class Context:
     def from_backend(cls, backend_h5_file_name, moves=None):
         """Initialize context from a backend_h5 file."""
         with h5py.File(get_file_path(backend_h5_file_name)) as file:
-            instruct = eval(file["mcmc"].attrs["instruct"])
+            instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
         tree = cls(instruct)
-- 
2.43.0


From 21fcb3e306e480dfc358af37359d5a766c74117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 11/56] fix: do not get post parameters from the chain of a
 previous fitting

The flat chain is cached the first time get_post_parameters is called, so after fitting again or
continue_fitting the maximum posterior estimate still came from the old, shorter chain. With a
backend it was also what is saved as post_parameters.
---
 appletree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index def8b48..000cb3c 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -222,6 +222,9 @@ class Context:
         repeat_times=1,
     ):
         """Prepare for fitting, initialize backend and sampler."""
+        # Forget the chain of the previous sampler, see get_post_parameters
+        for attribute in ["_logp", "_chain"]:
+            self.__dict__.pop(attribute, None)
         self._set_backend(nwalkers, read_only=read_only, reset=reset)
         self.sampler = emcee.EnsembleSampler(
             nwalkers,
-- 
2.43.0


From 6657f6eba702630ff12a3881f4074db8559d8779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 12/56] fix: allow continue_fitting of a context without
 backend

The sampler is created again, and without backend it knows no previous state, so emcee raised that
initial_state is None.
---
 appletree/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index 000cb3c..06b35e1 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -286,6 +286,8 @@ class Context:
         # If context is None, use self, i.e. continue the fitting defined in self
         if context is None:
             context = self
+        if context is self and self.backend_h5 is not None:
+            # The backend has the final iteration
             p0 = None
         else:
             # Final iteration
-- 
2.43.0


From 1f9b6b5944afefb548eb37687743205f07982569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 13/56] fix: respect the last registered plugin of each data
 name in the workflow

When a plugin overrides only some of the outputs of a multi-output plugin and both are needed, the
generated code assigned the overridden output twice, and which plugin won depended on their order.
---
 appletree/component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index 5c2b00b..dac2ea7 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -374,7 +374,10 @@ class ComponentSim(Component):
         code += f"def {func_name}(key, {nodep_data_name}, parameters):\n"
 
         for work in self.worksheet:
-            provides = "key, " + ", ".join(work[1])
+            # Drop the outputs that are provided by another plugin registered later
+            provides = "key, " + ", ".join(
+                p if self._plugin_class_registry[p].__name__ == work[0] else "_" for p in work[1]
+            )
             depends_on = ", ".join(work[2])
             instance = work[0] + "_" + self.name
             code += f"{indent}{provides} = {instance}(key, parameters, {depends_on})\n"
-- 
2.43.0


From 6ce1526c059cdb863028b41718a108c654e4e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 14/56] fix: zero prior outside the bounds of a uniform prior

The lower and upper of a uniform prior were only used to sample it, log_prior was 0 beyond them if
allowed_range is wider.
---
 appletree/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/parameter.py b/appletree/parameter.py
index 03baebb..bfdbb4e 100644
--- a/appletree/parameter.py
+++ b/appletree/parameter.py
@@ -167,7 +167,8 @@ class Parameter:
             elif prior_type == "free":
                 pass
             elif prior_type == "uniform":
-                pass
+                if val < args["lower"] or val > args["upper"]:
+                    log_prior += -np.inf
 
         return log_prior
 
-- 
2.43.0


From b9f3e7be91af1ef73c339ae6c184ce494ad7bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 15/56] fix: freeze the scaler of a SigmaMap when it is built

The maps are frozen in build but apply looked up the name of the scaler in the global configs, so a
component could use a scaler of configs that were set after it was built.
---
 appletree/config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index e8e6a93..364aff5 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -494,6 +494,8 @@ class SigmaMap(Config):
         self.upper.build(llh_name=self.llh_name)
 
         required_parameter = self.required_parameter()
+        # Do not look it up again in apply, the global configs may have changed since then
+        self.sigma_parameter = required_parameter
         if required_parameter is not None:
             print(
                 f"{self.llh_name}'s map {self.name} is using "
@@ -547,10 +549,10 @@ class SigmaMap(Config):
 
     def apply(self, pos, parameters):
         """Apply SigmaMap with sigma and position."""
-        if self.required_parameter() is None:
+        if self.sigma_parameter is None:
             sigma = 1.0
         else:
-            sigma = parameters[self.required_parameter()]
+            sigma = parameters[self.sigma_parameter]
         median = self.median.apply(pos)
         lower = self.lower.apply(pos)
         upper = self.upper.apply(pos)
-- 
2.43.0


From 782fe6ca0ede6ff23509d46fa6570e2456f7903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 16/56] fix: initialize the context with the parameter
 configuration saved in the backend

A context with manually set par_config was restored with the par_config of the instruct, with
other priors or even other fit parameters than those of the saved chain.
---
 appletree/context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 06b35e1..2d49112 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -61,9 +61,14 @@ class Context:
         """Initialize context from a backend_h5 file."""
         with h5py.File(get_file_path(backend_h5_file_name)) as file:
             instruct = json.loads(file["mcmc"].attrs["instruct"])
+            par_config = json.loads(file["mcmc"].attrs["par_config"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
-        tree = cls(instruct)
+        # The saved par_config has the copied parameters, restore those they are copied from
+        for likelihood in instruct["likelihoods"].values():
+            for k, v in likelihood["copy_parameters"].items():
+                par_config.setdefault(v, par_config[k])
+        tree = cls(instruct, par_config=par_config)
         # Overwrite the backend_h5 file name. If the user renames the
         # backend file then it could be different from the one in intruct
         tree.backend_h5 = backend_h5_file_name
-- 
2.43.0


From 43bbc26fa2506bff0aeada3c5a74bf2bc158a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:24 +0000
Subject: [PATCH 17/56] fix: plot the maps of all likelihoods

The configs of the plugin classes hold the maps of the last built likelihood, so with per-likelihood
configs the maps of the other likelihoods were missing.
---
 appletree/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index b291874..cfc8b8f 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -14,6 +14,7 @@ from appletree.utils import errors_to_two_half_norm_sigmas
 from appletree.randgen import TwoHalfNorm
 from appletree.config import Map, SigmaMap
 from appletree.component import ComponentSim
+from appletree.share import _cached_functions
 
 
 class Plotter:
@@ -469,11 +470,12 @@ def _collect_maps(context):
             # Only iterate over plugins actually used in the
             # simulation (worksheet), not all registered plugins.
             for work in component.worksheet:
-                provides = work[1]
-                # Look up the plugin class via its first provides name
-                plugin_class = component._plugin_class_registry[provides[0]]
+                # The instance has the maps of this likelihood, while those of
+                # the plugin class are the ones of the last built instance
+                plugin = _cached_functions[component.llh_name][f"{work[0]}_{component.name}"]
 
-                for config in plugin_class.takes_config.values():
+                for config_name in plugin.takes_config:
+                    config = getattr(plugin, config_name)
                     if isinstance(config, SigmaMap):
                         key = (
                             config.median.file_path,
-- 
2.43.0


From 6f7a056f1f077e4ffea8d1241ec0683218bb1f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:24 +0000
Subject: [PATCH 18/56] fix: profile the plugins of partially overridden
 multi-output plugins

The plugin was looked up by its first output, which another plugin registered later may provide, so
that plugin was profiled twice and the outputs of the right one were missing.
---
 appletree/profiler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/appletree/profiler.py b/appletree/profiler.py
index d18219b..e1dd4e8 100644
--- a/appletree/profiler.py
+++ b/appletree/profiler.py
@@ -109,7 +109,9 @@ def profile_component(
         plugin_name = work[0]
         provides = work[1]
 
-        plugin_class = component._plugin_class_registry[provides[0]]
+        plugin_class = next(
+            p for p in component._plugin_class_registry.values() if p.__name__ == plugin_name
+        )
         plugin_instance = plugin_class(component.llh_name)
 
         key, output_data, mean_time, std_time = profile_plugin(
@@ -121,7 +123,10 @@ def profile_component(
             n_runs=n_runs,
         )
 
-        data_store.update(output_data)
+        # Drop the outputs that are provided by another plugin registered later
+        for name, data in output_data.items():
+            if component._plugin_class_registry[name] is plugin_class:
+                data_store[name] = data
         total_time += mean_time
 
         result = {
-- 
2.43.0


From a70a04f9fa4fb8c5b76b1b6707f1f00a97c28650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 19/56] fix: sign of TwoHalfNorm.rvs without size

---
 appletree/randgen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 1e0d52d..11d51e7 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -554,7 +554,8 @@ class TwoHalfNorm:
         pos_half_prob = sigma_pos / (sigma_pos + sigma_neg)
 
         use_pos_half = np.random.uniform(size=size) < pos_half_prob
-        use_neg_half = ~use_pos_half
+        # `~` is bitwise for python bool, which we get if size is None
+        use_neg_half = np.logical_not(use_pos_half)
 
         n_sigma = np.abs(np.random.normal(size=size))
         offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
-- 
2.43.0


From 67d51cde17b6eae259482758a90ad6f0048cfe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:27 +0000
Subject: [PATCH 20/56] fix: clip equiprobable bins by the range of their own
 dimension

With order (1, 0) the bins of the 1st dimension were clipped to x_clip and those of the 0th one
to y_clip.
---
 appletree/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index e7c80d5..42edf3f 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -348,9 +348,11 @@ def get_equiprob_bins_2d(
         integer=integer,
         left=left,
     )
-    # To be strict, clip the inf(s)
-    x_bins = np.clip(x_bins, *x_clip)
-    y_bins = np.clip(y_bins, *y_clip)
+    # To be strict, clip the inf(s). The first bins are those of the dimension
+    # which is partitioned first
+    clips = (x_clip, y_clip)
+    x_bins = np.clip(x_bins, *clips[order[0]])
+    y_bins = np.clip(y_bins, *clips[order[1]])
 
     return which_np.array(x_bins), which_np.array(y_bins)
 
-- 
2.43.0


From bc033a1a070103faa83153bf8364046bf0bc124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 21/56] fix: replace aliases of parameters in templates

---
 appletree/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 2d49112..14b7dbb 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -415,7 +415,8 @@ class Context:
             seed: random seed.
 
         """
-        parameters = self.get_post_parameters()
+        # Components only know the original names of aliased parameters
+        parameters = self[likelihood_name].replace_alias(self.get_post_parameters())
         key = randgen.get_key(seed=seed)
 
         key, result = self[likelihood_name][component_name].simulate(
-- 
2.43.0


From 125e3bbaff62aa58e78c588a86bdf35cc21091bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 22/56] fix: drop copied rates that are needed only under an
 alias

---
 appletree/context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 14b7dbb..63e4f94 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -464,8 +464,11 @@ class Context:
                 self.par_config.update({k: self.par_config[v]})
                 from_parameters.append(v)
                 needed_parameters.add(k)
+            # An aliased rate is not needed under its original name
+            aliased = likelihood.get("parameter_alias", dict()).values()
             for k in likelihood["components"].keys():
-                needed_rate_parameters.append(k + "_rate")
+                if k + "_rate" not in aliased:
+                    needed_rate_parameters.append(k + "_rate")
         for p in from_parameters:
             if p not in needed_rate_parameters and p in self.par_config:
                 # Drop unused parameters
-- 
2.43.0


From 04538665f18d996e8573fb3bbd00acb37c05e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 23/56] fix: allow multiple_simulations_compile without an
 energy plugin

---
 appletree/component.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index dac2ea7..6d6a120 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -80,7 +80,9 @@ class Component:
 
     @property
     def _use_mcinput(self):
-        return "Bootstrap" in self._plugin_class_registry["energy"].__name__
+        # The component may not simulate energies at all
+        energy = self._plugin_class_registry.get("energy", None)
+        return energy is not None and "Bootstrap" in energy.__name__
 
     def simulate_hist(self, *args, **kwargs):
         """Hook for simulation with histogram output."""
-- 
2.43.0


From c3874bd08adb2a7d8e4c216501a36f1a2eb60d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 24/56] fix: recognize base classes with a leading underscore

---
 appletree/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 42edf3f..4f75932 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -599,7 +599,8 @@ def _add_extension(module, subclass, base, force=False):
     allowed class name covering! Please change the name of your class when Error shows itself.
 
     """
-    if getattr(subclass, "_" + subclass.__name__ + "__is_base", False):
+    # Name mangling strips leading underscores of the class name
+    if getattr(subclass, "_" + subclass.__name__.lstrip("_") + "__is_base", False):
         return
 
     if issubclass(subclass, base) and subclass != base:
-- 
2.43.0


From 0481d746c85f27893b57c462a1d07ca1bc6d7bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 25/56] fix: refuse a config given twice to one takes_config

---
 appletree/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/config.py b/appletree/config.py
index 364aff5..527ab11 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -46,6 +46,8 @@ def takes_config(*configs):
         for config in configs:
             if not isinstance(config, Config):
                 raise RuntimeError("Specify config options by Config objects")
+            if config.name in result:
+                raise RuntimeError(f"Attempt to specify config {config.name} twice")
             config.taken_by = plugin_class.__name__
             result[config.name] = config
 
-- 
2.43.0


From 9c9abb5d413c51c7eca13ee68191fc311ebe9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 26/56] fix: show the data names of all plugins in the graph

---
 appletree/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/utils.py b/appletree/utils.py
index 4f75932..3036b13 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -556,6 +556,7 @@ def add_plugins_to_graph_tree(
                 graph_tree,
                 plugin.depends_on,
                 _seen,
+                with_data_names=with_data_names,
             )
         _seen.append(plugin_name)
     return graph_tree, _seen
-- 
2.43.0


From ee1abc55eedc8045a3965c09b08d957392448361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 27/56] fix: restore the chain of the backend file that is
 found

---
 appletree/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 63e4f94..4b14562 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -59,7 +59,9 @@ class Context:
     @classmethod
     def from_backend(cls, backend_h5_file_name, moves=None):
         """Initialize context from a backend_h5 file."""
-        with h5py.File(get_file_path(backend_h5_file_name)) as file:
+        # The restored context reads the chain of the same file
+        backend_h5_file_name = get_file_path(backend_h5_file_name)
+        with h5py.File(backend_h5_file_name) as file:
             instruct = json.loads(file["mcmc"].attrs["instruct"])
             par_config = json.loads(file["mcmc"].attrs["par_config"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
-- 
2.43.0


From f22c93c002d700ab5fa6283522b9020c6da1804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 28/56] fix: write the lineage of ConstantSet, arrays are not
 JSON serializable

---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 527ab11..198d50f 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -606,5 +606,5 @@ class ConstantSet(Config):
     def lineage(self):
         return {
             "llh_name": self.llh_name,
-            "value": self.value,
+            "value": {k: v.tolist() for k, v in self.value.items()},
         }
-- 
2.43.0


From c82679b907e8c15b9f80a27bcf9cb340c341d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 29/56] fix: take the function and plugins of a component from
 its own namespace

---
 appletree/component.py | 10 +++++-----
 appletree/plot.py      |  3 +--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index 6d6a120..d0d18b5 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -167,9 +167,7 @@ class Component:
             if self._use_mcinput:
                 bootstrap_name = self._plugin_class_registry["energy"].__name__
                 bootstrap_name = bootstrap_name + "_" + self.name
-                n_events_selected = _cached_functions[self.llh_name][
-                    bootstrap_name
-                ].g4.n_events_selected
+                n_events_selected = self._namespace[bootstrap_name].g4.n_events_selected
                 normalization_factor = 1 / n_events_selected * parameters[self.rate_name]
             else:
                 normalization_factor = 1 / batch_size * parameters[self.rate_name]
@@ -406,6 +404,8 @@ class ComponentSim(Component):
             _cached_functions[self.llh_name] = namespace
         # Reserve the names until they are compiled
         namespace.update(dict.fromkeys(names))
+        # The cache may be cleared, or hold another namespace later
+        self._namespace = namespace
         self._compile = partial(exec, self.code, namespace)
 
     def deduce(
@@ -443,7 +443,7 @@ class ComponentSim(Component):
     def compile(self):
         """Build simulation function and cache it to share._cached_functions."""
         self._compile()
-        self.simulate = _cached_functions[self.llh_name][self.func_name]
+        self.simulate = self._namespace[self.func_name]
 
     def simulate_hist(self, key, batch_size, parameters):
         """Simulate and return histogram.
@@ -593,7 +593,7 @@ class ComponentSim(Component):
             "instances": dict(
                 zip(
                     self.instances,
-                    [_cached_functions[self.llh_name][p].lineage for p in self.instances],
+                    [self._namespace[p].lineage for p in self.instances],
                 )
             ),
             **bins_dict,
diff --git a/appletree/plot.py b/appletree/plot.py
index cfc8b8f..e99cc24 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -14,7 +14,6 @@ from appletree.utils import errors_to_two_half_norm_sigmas
 from appletree.randgen import TwoHalfNorm
 from appletree.config import Map, SigmaMap
 from appletree.component import ComponentSim
-from appletree.share import _cached_functions
 
 
 class Plotter:
@@ -472,7 +471,7 @@ def _collect_maps(context):
             for work in component.worksheet:
                 # The instance has the maps of this likelihood, while those of
                 # the plugin class are the ones of the last built instance
-                plugin = _cached_functions[component.llh_name][f"{work[0]}_{component.name}"]
+                plugin = component._namespace[f"{work[0]}_{component.name}"]
 
                 for config_name in plugin.takes_config:
                     config = getattr(plugin, config_name)
-- 
2.43.0


From a344ea4d3d4975051f7a6289d2eee89a65a72868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 30/56] fix: report the files that were loaded in the lineage,
 not those found later

---
 appletree/component.py  | 7 +++++--
 appletree/config.py     | 8 ++++++--
 appletree/likelihood.py | 7 +++++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index d0d18b5..f32a84c 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -618,6 +618,9 @@ class ComponentFixed(Component):
     def deduce(self, data_names: Union[List[str], Tuple[str]] = ["cs1", "cs2"]):
         """Deduce the needed parameters and make the fixed histogram."""
         self.data = load_data(self._file_name)[list(data_names)].to_numpy()
+        # For the lineage, the file may be changed afterwards
+        self._full_path = get_file_path(self._file_name)
+        self._sha256 = calculate_sha256(self._full_path)
         self.eff = jnp.ones(len(self.data))
         self.hist = self.implement_binning(self.data, self.eff)
         self.needed_parameters.add(self.rate_name)
@@ -652,9 +655,9 @@ class ComponentFixed(Component):
             "file_path": (
                 os.path.basename(self._file_name)
                 if not utils.FULL_PATH_LINEAGE
-                else get_file_path(self._file_name)
+                else self._full_path
             ),
-            "sha256": calculate_sha256(get_file_path(self._file_name)),
+            "sha256": self._sha256,
         }
 
 
diff --git a/appletree/config.py b/appletree/config.py
index 198d50f..e370ebf 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -223,6 +223,10 @@ class Map(Config):
         except Exception:
             raise ValueError(f"Cannot load {self.name} from {_file_path}!")
 
+        # For the lineage, the file may be changed afterwards
+        self._full_path = _file_path
+        self._sha256 = calculate_sha256(_file_path)
+
         coordinate_type = data["coordinate_type"]
         if isinstance(coordinate_type, list):
             for ct in coordinate_type:
@@ -391,9 +395,9 @@ class Map(Config):
             "file_path": (
                 os.path.basename(self.file_path)
                 if not utils.FULL_PATH_LINEAGE
-                else get_file_path(self.file_path)
+                else self._full_path
             ),
-            "sha256": calculate_sha256(get_file_path(self.file_path)),
+            "sha256": self._sha256,
         }
 
 
diff --git a/appletree/likelihood.py b/appletree/likelihood.py
index 765c856..07f6832 100644
--- a/appletree/likelihood.py
+++ b/appletree/likelihood.py
@@ -87,6 +87,9 @@ class Likelihood:
         self._sanity_check()
 
         self.data = load_data(self._data_file_name)[self._bins_on].to_numpy()
+        # For the lineage, the file may be changed afterwards
+        self._full_path = get_file_path(self._data_file_name)
+        self._sha256 = calculate_sha256(self._full_path)
         if self._dim == 1:
             mask = self.data[:, 0] > config["clip"][0]
             mask &= self.data[:, 0] < config["clip"][1]
@@ -442,9 +445,9 @@ class Likelihood:
             "file_path": (
                 os.path.basename(self._data_file_name)
                 if not utils.FULL_PATH_LINEAGE
-                else get_file_path(self._data_file_name)
+                else self._full_path
             ),
-            "sha256": calculate_sha256(get_file_path(self._data_file_name)),
+            "sha256": self._sha256,
             "components": dict(
                 zip(
                     self.components.keys(),
-- 
2.43.0


From 892ce7c5731856f0933f0133e76a32e9aa8152b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 31/56] fix: keep a copy of the instructions in the context

---
 appletree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index 4b14562..18bfe62 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -32,6 +32,9 @@ class Context:
         """
         if isinstance(instruct, str):
             instruct = load_json(instruct)
+        else:
+            # The caller may change it for another context
+            instruct = copy.deepcopy(instruct)
 
         # url_base and configs are not mandatory
         if "url_base" in instruct.keys():
-- 
2.43.0


From d30a67a7d8c2405c38eb5efc9eb21453ebbdae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 32/56] fix: have the scaler in the lineage of SigmaMap

---
 appletree/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/config.py b/appletree/config.py
index e370ebf..4dd5efb 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -575,6 +575,7 @@ class SigmaMap(Config):
             "median": self.median.lineage,
             "lower": self.lower.lineage,
             "upper": self.upper.lineage,
+            "sigma_parameter": self.sigma_parameter,
         }
 
 
-- 
2.43.0


From ec552d930814105938753b9410585b5c45683bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 33/56] fix: write numpy arrays in the instructions to lineage
 and backend files

---
 appletree/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 3036b13..6497175 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -28,7 +28,15 @@ except ImportError:
 
 SKIP_MONGO_DB = True
 
-JSON_OPTIONS = dict(sort_keys=True, indent=4)
+
+def _to_json(value):
+    """Write arrays and numpy scalars, e.g. the bins in instructions, as lists and numbers."""
+    if isinstance(value, (np.ndarray, np.generic)):
+        return value.tolist()
+    raise TypeError(f"Object of type {type(value).__name__} is not JSON serializable")
+
+
+JSON_OPTIONS = dict(sort_keys=True, indent=4, default=_to_json)
 
 FULL_PATH_LINEAGE = False
 
-- 
2.43.0


From adc2ea0039ff7f2a5bb3c3aa688e0f3a5bdbfdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 34/56] fix: corner plot of chains in which a quantity is
 constant, e.g. the prior of free parameters

---
 appletree/plot.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/appletree/plot.py b/appletree/plot.py
index e99cc24..9095a22 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -243,8 +243,15 @@ class Plotter:
         )
         labels = np.concatenate((self.param_names, ["log posterior", "log prior"]))
 
+        # Corner refuses quantities without spread, e.g. the log prior of free parameters
+        ranges = [
+            (low, high) if low < high else (low - 0.5, high + 0.5)
+            for low, high in zip(samples.min(axis=0), samples.max(axis=0))
+        ]
+
         corner.corner(
             samples,
+            range=ranges,
             labels=labels,
             quantiles=norm.cdf([-1, 0, 1]),
             hist_kwargs={"density": True},
-- 
2.43.0


From bd19e67d3c169fe4331a50af0ca452811196e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 35/56] fix: autocorrelation plot of a chain with a single
 parameter

---
 appletree/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index 9095a22..fb8bbcc 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -358,8 +358,8 @@ class Plotter:
             axes.append(ax)
 
         # Set xlabels of the last two axes
-        axes[-1].set_xlabel("Number of iterations after burn-in")
-        axes[-2].set_xlabel("Number of iterations after burn-in")
+        for ax in axes[-2:]:
+            ax.set_xlabel("Number of iterations after burn-in")
 
         # Set legend
         handles, labels = axes[-1].get_legend_handles_labels()
-- 
2.43.0


From f1ceb59416a0f38468efdd06ac82a529535cee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 36/56] fix: outermost nodes of logarithmic axes are inside a
 range that ends at them

---
 appletree/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index fb8bbcc..2622da1 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -521,7 +521,8 @@ def _regbin_edges_centers(lower, upper, n_bins, is_log):
     """
     if is_log:
         log_centers = np.linspace(np.log10(lower), np.log10(upper), n_bins)
-        centers = 10**log_centers
+        # Unlike 10**log_centers, this starts and ends exactly at the bounds
+        centers = np.geomspace(lower, upper, n_bins)
         if n_bins > 1:
             half = (log_centers[1] - log_centers[0]) / 2
             log_edges = np.concatenate(
-- 
2.43.0


From 9f2fbde546a49a7846ef3dd355152b9a305a5219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 37/56] fix: draw the bars of logarithmic maps between their
 edges

---
 appletree/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index 2622da1..1df9fea 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -643,18 +643,19 @@ def _plot_map_1d_regbin(config, map_data, coord_name, coord_lower, coord_upper,
     """Plot a 1D regbin Map."""
     fig, ax = plt.subplots()
     n_bins = len(map_data)
-    edges, centers = _regbin_edges_centers(
+    edges, _ = _regbin_edges_centers(
         coord_lower,
         coord_upper,
         n_bins,
         is_log,
     )
     widths = edges[1:] - edges[:-1]
+    # The nodes of logarithmic axes are not in the middle of their edges
     ax.bar(
-        centers,
+        edges[:-1],
         map_data,
         width=widths,
-        align="center",
+        align="edge",
         alpha=0.7,
     )
     if is_log:
-- 
2.43.0


From 935e4f9e6a31ef7bd6d2c586b3d9d6c92b3f0c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 38/56] fix: plot one-dimensional regbin maps under their whole
 axis name

---
 appletree/plot.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index 1df9fea..4d23253 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -863,6 +863,13 @@ def plot_maps(context, collapse=None, save=False, save_path=".", fmt="png"):
     return figures
 
 
+def _axis_names(config):
+    """Names of the axes of a regbin Map as a list, a 1D map may have a plain string."""
+    if isinstance(config.coordinate_name, str):
+        return [config.coordinate_name]
+    return list(config.coordinate_name)
+
+
 def _plot_regular_map(config, collapse):
     """Route a Map to the appropriate plotting function."""
     coord_type = config.coordinate_type
@@ -878,7 +885,7 @@ def _plot_regular_map(config, collapse):
             is_log_axes = [coord_type == "log_regbin"] * ndim
 
         map_data = np.array(config.map)
-        coord_name = list(config.coordinate_name)
+        coord_name = _axis_names(config)
         coord_lowers = list(np.array(config.coordinate_lowers))
         coord_uppers = list(np.array(config.coordinate_uppers))
 
@@ -946,7 +953,7 @@ def _plot_sigma_map(config, collapse):
         med_data = np.array(median.map)
         low_data = np.array(config.lower.map)
         up_data = np.array(config.upper.map)
-        coord_name = list(median.coordinate_name)
+        coord_name = _axis_names(median)
         coord_lowers = list(np.array(median.coordinate_lowers))
         coord_uppers = list(np.array(median.coordinate_uppers))
 
@@ -961,7 +968,7 @@ def _plot_sigma_map(config, collapse):
         )
         low_data, _, _, _, _ = _collapse_regbin_map(
             low_data,
-            list(median.coordinate_name),
+            _axis_names(median),
             list(np.array(median.coordinate_lowers)),
             list(np.array(median.coordinate_uppers)),
             collapse,
@@ -969,7 +976,7 @@ def _plot_sigma_map(config, collapse):
         )
         up_data, _, _, _, _ = _collapse_regbin_map(
             up_data,
-            list(median.coordinate_name),
+            _axis_names(median),
             list(np.array(median.coordinate_lowers)),
             list(np.array(median.coordinate_uppers)),
             collapse,
-- 
2.43.0


From 64039c830406e0b22fca4888798f7a0824ef4ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 39/56] fix: save every map figure to its own file

---
 appletree/plot.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index 4d23253..580d78d 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -795,13 +795,20 @@ def _plot_config(config, map_collapse):
     return None
 
 
-def _save_figure(fig, config, save_path, fmt):
-    """Save a figure to disk in each requested format."""
+def _save_figure(fig, config, save_path, fmt, suffix="", saved=None):
+    """Save a figure to disk in each requested format, but not as one of those in ``saved``."""
     if isinstance(config, SigmaMap):
         file_path = config.median.file_path
     else:
         file_path = config.file_path
-    stem = os.path.splitext(os.path.basename(file_path))[0]
+    stem = os.path.splitext(os.path.basename(file_path))[0] + suffix
+    if saved is not None:
+        # Different maps can have the same base name
+        base, i = stem, 1
+        while stem in saved:
+            i += 1
+            stem = f"{base}_{i}"
+        saved.add(stem)
     for f in fmt:
         fig.savefig(os.path.join(save_path, f"{stem}.{f}"))
 
@@ -844,6 +851,7 @@ def plot_maps(context, collapse=None, save=False, save_path=".", fmt="png"):
     """
     collected = _collect_maps(context)
     figures = []
+    saved = set()
 
     if save:
         os.makedirs(save_path, exist_ok=True)
@@ -855,10 +863,12 @@ def plot_maps(context, collapse=None, save=False, save_path=".", fmt="png"):
         fig_ax_list = _plot_config(config, map_collapse)
         if fig_ax_list is None:
             continue
-        for fig_ax in fig_ax_list:
+        # 2D maps with uncertainty have three figures
+        suffixes = ["_lower", "_median", "_upper"] if len(fig_ax_list) == 3 else [""]
+        for fig_ax, suffix in zip(fig_ax_list, suffixes):
             figures.append(fig_ax)
             if save:
-                _save_figure(fig_ax[0], config, save_path, fmt)
+                _save_figure(fig_ax[0], config, save_path, fmt, suffix, saved)
 
     return figures
 
-- 
2.43.0


From 2d2aac17e951bd047e7bcdbb3c076f690f49f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 40/56] fix: recognise a map file that is given by different
 paths as one map

---
 appletree/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index 580d78d..f0954dc 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -484,12 +484,12 @@ def _collect_maps(context):
                     config = getattr(plugin, config_name)
                     if isinstance(config, SigmaMap):
                         key = (
-                            config.median.file_path,
-                            config.lower.file_path,
-                            config.upper.file_path,
+                            os.path.realpath(config.median._full_path),
+                            os.path.realpath(config.lower._full_path),
+                            os.path.realpath(config.upper._full_path),
                         )
                     elif isinstance(config, Map):
-                        key = config.file_path
+                        key = os.path.realpath(config._full_path)
                     else:
                         continue
 
-- 
2.43.0


From e8c8941e64b19a9300afa8b0463d4d384b18600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 41/56] fix: compare the nodes of logarithmic axes with a range
 in the precision of the bounds, like linear ones

---
 appletree/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index f0954dc..1c78896 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -522,7 +522,7 @@ def _regbin_edges_centers(lower, upper, n_bins, is_log):
     if is_log:
         log_centers = np.linspace(np.log10(lower), np.log10(upper), n_bins)
         # Unlike 10**log_centers, this starts and ends exactly at the bounds
-        centers = np.geomspace(lower, upper, n_bins)
+        centers = np.geomspace(lower, upper, n_bins, dtype=np.result_type(lower, upper, 1.0))
         if n_bins > 1:
             half = (log_centers[1] - log_centers[0]) / 2
             log_edges = np.concatenate(
-- 
2.43.0


From 0d5a75a6d95b0723a41da6ae186e6f671a9cfafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 42/56] fix: profile the plugins of the component itself, not
 new ones with the present configuration

---
 appletree/profiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/appletree/profiler.py b/appletree/profiler.py
index e1dd4e8..33279b4 100644
--- a/appletree/profiler.py
+++ b/appletree/profiler.py
@@ -112,7 +112,11 @@ def profile_component(
         plugin_class = next(
             p for p in component._plugin_class_registry.values() if p.__name__ == plugin_name
         )
-        plugin_instance = plugin_class(component.llh_name)
+        # A new instance would take the configurations that are set now, which
+        # are not the ones the component was compiled with
+        plugin_instance = component._namespace.get(f"{plugin_name}_{component.name}")
+        if plugin_instance is None:
+            plugin_instance = plugin_class(component.llh_name)
 
         key, output_data, mean_time, std_time = profile_plugin(
             plugin_instance,
-- 
2.43.0


From bfb07caec5780b33749ff9621b427e96664632b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 43/56] fix: profile plugins that return numpy arrays or
 numbers

---
 appletree/profiler.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/appletree/profiler.py b/appletree/profiler.py
index 33279b4..b9832f8 100644
--- a/appletree/profiler.py
+++ b/appletree/profiler.py
@@ -4,6 +4,7 @@ import time
 from typing import Dict, List, Optional, Any
 
 import numpy as np
+from jax import block_until_ready
 
 import appletree as apt
 from appletree import randgen
@@ -41,16 +42,14 @@ def profile_plugin(
     # Warmup runs for JIT compilation
     for _ in range(n_warmup):
         key, *outputs = plugin_instance.simulate(key, parameters, *args)
-        for out in outputs:
-            out.block_until_ready()
+        block_until_ready(outputs)
 
     # Timed runs
     times = []
     for _ in range(n_runs):
         start = time.perf_counter()
         key, *outputs = plugin_instance.simulate(key, parameters, *args)
-        for out in outputs:
-            out.block_until_ready()
+        block_until_ready(outputs)
         end = time.perf_counter()
         times.append((end - start) * 1000)
 
@@ -304,16 +303,14 @@ def profile_full_simulation(
             # Warmup
             for _ in range(n_warmup):
                 key, result = component.simulate(key, batch_size, parameters_component)
-                for r in result:
-                    r.block_until_ready()
+                block_until_ready(result)
 
             # Timed runs
             times = []
             for _ in range(n_runs):
                 start = time.perf_counter()
                 key, result = component.simulate(key, batch_size, parameters_component)
-                for r in result:
-                    r.block_until_ready()
+                block_until_ready(result)
                 end = time.perf_counter()
                 times.append((end - start) * 1000)
 
-- 
2.43.0


From aca2444f78461312608f0c16d7a5110a2f05fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 44/56] fix: extract all electrons, not none, when g2 is above
 the gas gain

---
 appletree/plugins/detector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/plugins/detector.py b/appletree/plugins/detector.py
index 76ff662..d878df2 100644
--- a/appletree/plugins/detector.py
+++ b/appletree/plugins/detector.py
@@ -153,7 +153,9 @@ class S2PE(Plugin):
     def simulate(self, key, parameters, num_electron_drifted, s2_lce, x, y):
         pos_true = jnp.stack([x, y]).T
         gas_gain_relative = self.gas_gain_relative.apply(pos_true)
-        extraction_eff = parameters["g2"] / (parameters["gas_gain"] * gas_gain_relative)
+        extraction_eff = jnp.clip(
+            parameters["g2"] / (parameters["gas_gain"] * gas_gain_relative), 0, 1.0
+        )
         key, num_electron_extracted = randgen.binomial(key, extraction_eff, num_electron_drifted)
 
         gas_gain = parameters["gas_gain"] * gas_gain_relative * s2_lce
-- 
2.43.0


From 48b885b44b939f36e698ac6ea6544a3280806e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 45/56] fix: light yield of nuclear recoils at zero energy is
 zero, not nan

---
 appletree/plugins/nestv2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/plugins/nestv2.py b/appletree/plugins/nestv2.py
index 2d5b175..f066e3d 100644
--- a/appletree/plugins/nestv2.py
+++ b/appletree/plugins/nestv2.py
@@ -127,6 +127,8 @@ class LyNR(Plugin):
         light_yield = _Nq / energy - charge_yield
         light_yield *= 1 - 1 / (1 + (energy / parameters["theta"]) ** parameters["iota"])
         light_yield = jnp.clip(light_yield, 0, jnp.inf)
+        # _Nq / energy is not defined at zero energy, where there is no light
+        light_yield = jnp.where(energy > 0, light_yield, 0.0)
         return key, light_yield
 
 
-- 
2.43.0


From 1245d4c3930a4bc94cd0ff55a0c63f5169c42b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 46/56] fix: electron fraction of electronic recoils without
 quanta is zero, like for nuclear recoils, not nan

---
 appletree/plugins/er_nestv2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/plugins/er_nestv2.py b/appletree/plugins/er_nestv2.py
index 54d18ee..806dbfd 100644
--- a/appletree/plugins/er_nestv2.py
+++ b/appletree/plugins/er_nestv2.py
@@ -120,7 +120,8 @@ class MeanExcitonIonER(Plugin):
 
     @partial(jit, static_argnums=(0,))
     def simulate(self, key, parameters, nex_ni_ratio, _Nph, _Ne):
-        elecFrac = _Ne / (_Nph + _Ne)
+        _Nq = _Nph + _Ne
+        elecFrac = jnp.where(_Nq > 0, _Ne / _Nq, 0.0)
         recombProb = 1.0 - (nex_ni_ratio + 1.0) * elecFrac
         recombProb = jnp.maximum(recombProb, 0.0)
         return key, elecFrac, recombProb
-- 
2.43.0


From d5bb891106ad8a78723011abd31320e526909cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 47/56] fix: number of ions keeps its precision when there are
 few electrons

---
 appletree/plugins/nestv2.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/appletree/plugins/nestv2.py b/appletree/plugins/nestv2.py
index f066e3d..50ae9a7 100644
--- a/appletree/plugins/nestv2.py
+++ b/appletree/plugins/nestv2.py
@@ -153,10 +153,9 @@ class MeanExcitonIon(Plugin):
 
     @partial(jit, static_argnums=(0,))
     def simulate(self, key, parameters, ThomasImel, _Nph, _Ne):
-        _Nex = (-1.0 / ThomasImel) * (
-            4.0 * jnp.exp(_Ne * ThomasImel / 4.0) - (_Ne + _Nph) * ThomasImel - 4.0
-        )
-        _Ni = (4.0 / ThomasImel) * (jnp.exp(_Ne * ThomasImel / 4.0) - 1.0)
+        # expm1 keeps the precision when there are few electrons
+        _Ni = (4.0 / ThomasImel) * jnp.expm1(_Ne * ThomasImel / 4.0)
+        _Nex = (_Ne + _Nph) - _Ni
         nex_ni_ratio = jnp.where(_Ni > 0, _Nex / _Ni, 1.0)
         _Nq = _Nph + _Ne
         alf = 1.0 / (1.0 + nex_ni_ratio)
-- 
2.43.0


From efff56749f7a4d980e56e0221190d531d5c9f15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 48/56] fix: theta of nuclear recoils is an energy scale, which
 is positive like zeta

---
 appletree/parameters/nestv2.json            | 2 +-
 appletree/parameters/nestv2_yield_only.json | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/parameters/nestv2.json b/appletree/parameters/nestv2.json
index 1fa52a8..a2ddb17 100644
--- a/appletree/parameters/nestv2.json
+++ b/appletree/parameters/nestv2.json
@@ -124,7 +124,7 @@
             "std": 0.05
         },
         "allowed_range": [
-            -1e10,
+            1e-10,
             1e10
         ],
         "init_mean": 0.3,
diff --git a/appletree/parameters/nestv2_yield_only.json b/appletree/parameters/nestv2_yield_only.json
index 43ecd40..c95ea35 100644
--- a/appletree/parameters/nestv2_yield_only.json
+++ b/appletree/parameters/nestv2_yield_only.json
@@ -124,7 +124,7 @@
             "std": 0.05
         },
         "allowed_range": [
-            -1e10,
+            1e-10,
             1e10
         ],
         "init_mean": 0.3,
-- 
2.43.0


From 39a619010d6f23a75af5683091617139ba51d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 49/56] fix: recombination fluctuation of electronic recoils at
 fields above 420 V/cm, where a power overflows

---
 appletree/plugins/er_nestv2.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/appletree/plugins/er_nestv2.py b/appletree/plugins/er_nestv2.py
index 806dbfd..a274261 100644
--- a/appletree/plugins/er_nestv2.py
+++ b/appletree/plugins/er_nestv2.py
@@ -192,10 +192,9 @@ class OmegaER(Plugin):
     @partial(jit, static_argnums=(0,))
     def simulate(self, key, parameters, elecFrac, recombProb, Ni, _Ne, _Nph, field):
         # was A in previous version, be advised
-        ampl = (
-            0.086036
-            + (parameters["A_er"] - 0.086036) / (1.0 + (field / 295.2) ** 251.6) ** 0.0069114
-        )
+        # (1.0 + (field / 295.2) ** 251.6) ** 0.0069114, without overflow of the large power
+        field_factor = jnp.exp(0.0069114 * jnp.logaddexp(0.0, 251.6 * jnp.log(field / 295.2)))
+        ampl = 0.086036 + (parameters["A_er"] - 0.086036) / field_factor
         sqrt2 = jnp.sqrt(2.0)
 
         # Skewd normal normalization
-- 
2.43.0


From 08aa131f6b29ae4a65788d48b5c21cebcb5a8851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 50/56] fix: show the acceptance fraction of each walker, not
 the mean of its running averages

---
 appletree/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index 1c78896..3051002 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -441,7 +441,7 @@ class Plotter:
 
         # Plot the mean acceptance fraction over all iterations, as a function of each walker
         ax = axes[1]
-        mean_acceptance_fraction_per_walker = np.mean(acceptance_fraction, axis=0)
+        mean_acceptance_fraction_per_walker = np.mean(accepted, axis=0)
         ax.plot(
             np.arange(n_walker),
             mean_acceptance_fraction_per_walker,
-- 
2.43.0


From 85da28bf68496c163bb85f52e105055cb75c8cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 51/56] fix: parameter files are found like other resource
 files

---
 appletree/parameter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/appletree/parameter.py b/appletree/parameter.py
index bfdbb4e..6708462 100644
--- a/appletree/parameter.py
+++ b/appletree/parameter.py
@@ -1,10 +1,9 @@
 import copy
-import json
 
 import numpy as np
 
 from appletree.randgen import TwoHalfNorm
-from appletree.utils import errors_to_two_half_norm_sigmas
+from appletree.utils import errors_to_two_half_norm_sigmas, load_json
 
 
 class Parameter:
@@ -20,8 +19,7 @@ class Parameter:
 
         """
         if isinstance(parameter_config, str):
-            with open(parameter_config, "r") as file:
-                self.par_config = json.load(file)
+            self.par_config = load_json(parameter_config)
         elif isinstance(parameter_config, dict):
             self.par_config = copy.deepcopy(parameter_config)
         else:
-- 
2.43.0


From 731f0d0ba5718fd46c31a9d489a3613a065a37ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 52/56] fix: a rebuilt likelihood takes the new files of maps
 with uncertainty

---
 appletree/config.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 4dd5efb..25ce59a 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -27,6 +27,9 @@ OMITTED = "<OMITTED>"
 
 __all__.extend(["OMITTED"])
 
+# File names which SigmaMap added to `_cached_configs`, the others are given by the user
+_cached_sigma_maps: dict = dict()
+
 
 @export
 def takes_config(*configs):
@@ -451,16 +454,17 @@ class SigmaMap(Config):
         if map_name not in _cached_configs:
             _cached_configs[map_name] = dict()
         if isinstance(_cached_configs[map_name], dict):
-            existing = _cached_configs[map_name].get(
-                self.llh_name,
-                value,
-            )
-            if existing != value:
+            existing = _cached_configs[map_name].get(self.llh_name)
+            key = (map_name, self.llh_name)
+            if existing is None or existing == _cached_sigma_maps.get(key):
+                # What a SigmaMap has put here follows the configuration of the SigmaMap
+                _cached_configs[map_name][self.llh_name] = value
+                _cached_sigma_maps[key] = value
+            elif existing != value:
                 raise ValueError(
                     f"You give different values for {self.name} in "
                     f"configs, find {existing} and {value}."
                 )
-            _cached_configs[map_name][self.llh_name] = value
 
     def build(self, llh_name: Optional[str] = None):
         """Read maps."""
-- 
2.43.0


From 90d0267baefcf25d074eb2658a84d4c1cdb02c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 53/56] fix: maps with uncertainty follow their configuration
 without likelihood, and compare the files given for them, not their spelling

---
 appletree/config.py | 58 +++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 25ce59a..9f8af99 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -451,26 +451,28 @@ class SigmaMap(Config):
         """Update _cached_configs for a sigma sub-map, checking for conflicts."""
         # In case some plugins only use the median
         # and may already update the map name in `_cached_configs`
-        if map_name not in _cached_configs:
-            _cached_configs[map_name] = dict()
-        if isinstance(_cached_configs[map_name], dict):
-            existing = _cached_configs[map_name].get(self.llh_name)
-            key = (map_name, self.llh_name)
-            if existing is None or existing == _cached_sigma_maps.get(key):
-                # What a SigmaMap has put here follows the configuration of the SigmaMap
-                _cached_configs[map_name][self.llh_name] = value
-                _cached_sigma_maps[key] = value
-            elif existing != value:
-                raise ValueError(
-                    f"You give different values for {self.name} in "
-                    f"configs, find {existing} and {value}."
-                )
+        maps, key = _cached_configs, map_name
+        if self.llh_name is not None:
+            if maps.get(map_name) in (None, _cached_sigma_maps.get((map_name, None))):
+                maps[map_name] = dict()
+            if isinstance(maps[map_name], dict):
+                maps, key = maps[map_name], self.llh_name
+        existing = maps.get(key)
+        if existing in (None, _cached_sigma_maps.get((map_name, self.llh_name))):
+            # What a SigmaMap has put here follows the configuration of the SigmaMap
+            maps[key] = value
+            _cached_sigma_maps[(map_name, self.llh_name)] = value
+        elif isinstance(existing, str) and get_file_path(existing) != get_file_path(value):
+            raise ValueError(
+                f"You give different values for {self.name} in "
+                f"configs, find {existing} and {value}."
+            )
 
     def build(self, llh_name: Optional[str] = None):
         """Read maps."""
         self.llh_name = llh_name
         _configs = self.get_configs()
-        _configs_default = self.get_default()
+        _configs_default = self.default
 
         if isinstance(_configs, list) and len(_configs) > 4:
             raise ValueError(f"You give too much information in {self.name}'s configs.")
@@ -479,25 +481,25 @@ class SigmaMap(Config):
 
         sigmas = ["median", "lower", "upper"]
         for i, sigma in enumerate(sigmas):
-            default = self._resolve_sigma_value(
-                _configs_default,
-                i,
-                "default configuration",
-            )
+            # The default is not needed, but checked, if the configuration is given
+            if _configs_default is not OMITTED:
+                self._resolve_sigma_value(
+                    _configs_default,
+                    i,
+                    "default configuration",
+                )
             m = Map(
                 method=self.method,
                 name=f"{self.name}_{sigma}",
-                default=default,
             )
             setattr(self, sigma, m)
 
-            if self.llh_name is not None:
-                value = self._resolve_sigma_value(
-                    _configs,
-                    i,
-                    "configuration",
-                )
-                self._update_sigma_cache(m.name, value)
+            value = self._resolve_sigma_value(
+                _configs,
+                i,
+                "configuration",
+            )
+            self._update_sigma_cache(m.name, value)
 
         self.median.build(llh_name=self.llh_name)
         self.lower.build(llh_name=self.llh_name)
-- 
2.43.0


From 6631b11d5caf4906cb5287410f8c8a54af475e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 54/56] fix: fixed components with on_sim normalization have no
 plugins to ask for energies

---
 appletree/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index f32a84c..73fe371 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -80,8 +80,8 @@ class Component:
 
     @property
     def _use_mcinput(self):
-        # The component may not simulate energies at all
-        energy = self._plugin_class_registry.get("energy", None)
+        # The component may not simulate energies at all, and a fixed one has no plugins
+        energy = getattr(self, "_plugin_class_registry", dict()).get("energy", None)
         return energy is not None and "Bootstrap" in energy.__name__
 
     def simulate_hist(self, *args, **kwargs):
-- 
2.43.0


From 1d8942b1ed15b775192659645846225b49a443c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 55/56] fix: registering a module with a dotted name replaced
 an existing attribute silently

---
 appletree/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 6497175..92263cf 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -582,7 +582,8 @@ def add_extensions(module1, module2, base, force=False):
 
     """
     # Assign the module2 as attribute of module1
-    is_exists = module2.__name__ in dir(module1)
+    name = module2.__name__.split(".")[-1]
+    is_exists = name in dir(module1)
     if is_exists and not force:
         raise ValueError(
             f"{module2.__name__} already existed in {module1.__name__}, "
@@ -591,7 +592,7 @@ def add_extensions(module1, module2, base, force=False):
     else:
         if is_exists:
             print(f"You have forcibly registered {module2.__name__} to {module1.__name__}")
-        setattr(module1, module2.__name__.split(".")[-1], module2)
+        setattr(module1, name, module2)
 
     # Iterate the module2 and assign the single Plugin(s) as attribute(s)
     for x in dir(module2):
-- 
2.43.0


From 943e64bd06e769121701e9a36a0c59db485f457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:12 +0000
Subject: [PATCH 56/56] fix: a refused plugin registration leaves the component
 as it was

---
 appletree/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index 73fe371..37899b1 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -216,11 +216,13 @@ class ComponentSim(Component):
         if isinstance(plugin_class.provides, str):
             plugin_class.provides = tuple([plugin_class.provides])
 
+        # What is refused is not registered
+        registry = dict(self._plugin_class_registry)
         for p in plugin_class.provides:
-            self._plugin_class_registry[p] = plugin_class
+            registry[p] = plugin_class
 
         already_seen = []
-        for plugin in self._plugin_class_registry.values():
+        for plugin in registry.values():
             if plugin in already_seen:
                 continue
             already_seen.append(plugin)
@@ -245,6 +247,8 @@ class ComponentSim(Component):
                         )
                         raise ValueError(mes)
 
+        self._plugin_class_registry = registry
+
     def register_all(self, module):
         """Register all plugins defined in module.
 
-- 
2.43.0

