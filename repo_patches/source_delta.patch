From 11c6490564b26c502fc7565ca3e073310d06be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 01/38] fix: TwoHalfNorm.rvs never draws the negative half for
 scalar output

---
 appletree/randgen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 6d9a3ea..cc2c4dc 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -554,7 +554,8 @@ class TwoHalfNorm:
         pos_half_prob = sigma_pos / (sigma_pos + sigma_neg)
 
         use_pos_half = np.random.uniform(size=size) < pos_half_prob
-        use_neg_half = ~use_pos_half
+        # for scalars use_pos_half is a python bool, for which ~ is not the logical not
+        use_neg_half = np.logical_not(use_pos_half)
 
         n_sigma = np.abs(np.random.normal(size=size))
         offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
-- 
2.43.0


From 1782fd9fd3cb4961399ac2ed160ee0c7986975c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 02/38] fix: twohalfnorm uses the same seed to choose the half
 and the deviation

---
 appletree/randgen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index cc2c4dc..fb870e4 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -641,6 +641,8 @@ def twohalfnorm(key, mu, sigma_pos, sigma_neg, shape=()):
     use_pos_half = random.uniform(seed, shape, minval=0.0, maxval=1.0) < pos_half_prob
     use_neg_half = ~use_pos_half
 
+    # use an independent seed, otherwise n_sigma is correlated with the choice of half
+    key, seed = random.split(key)
     n_sigma = jnp.abs(random.normal(seed, shape=shape))
     offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
     rvs = offset + mu
-- 
2.43.0


From 55b7c31c42dde5c93229e3ffa701a0354f7faafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 03/38] fix: IDW interpolation overflows at the nodes of a
 regular binning

---
 appletree/interpolation.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 4f79a70..31321c1 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -157,8 +157,10 @@ def map_interpolator_regular_binning_2d(pos, ref_pos_lowers, ref_pos_uppers, ref
     dr3 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos3 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
     dr4 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos4 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
 
-    val = val1 / dr1 + val2 / dr2 + val3 / dr3 + val4 / dr4
-    val /= 1.0 / dr1 + 1.0 / dr2 + 1.0 / dr3 + 1.0 / dr4
+    # Normalize the weights first, val / dr overflows when pos is on a node
+    weights = 1.0 / jnp.stack([dr1, dr2, dr3, dr4])
+    weights /= jnp.sum(weights, axis=0)
+    val = jnp.sum(jnp.stack([val1, val2, val3, val4]) * weights, axis=0)
 
     return val
 
@@ -221,25 +223,12 @@ def map_interpolator_regular_binning_3d(pos, ref_pos_lowers, ref_pos_uppers, ref
     dr7 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos7 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
     dr8 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos8 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
 
-    val = (
-        val1 / dr1
-        + val2 / dr2
-        + val3 / dr3
-        + val4 / dr4
-        + val5 / dr5
-        + val6 / dr6
-        + val7 / dr7
-        + val8 / dr8
-    )
-    val /= (
-        1.0 / dr1
-        + 1.0 / dr2
-        + 1.0 / dr3
-        + 1.0 / dr4
-        + 1.0 / dr5
-        + 1.0 / dr6
-        + 1.0 / dr7
-        + 1.0 / dr8
+    # Normalize the weights first, val / dr overflows when pos is on a node
+    weights = 1.0 / jnp.stack([dr1, dr2, dr3, dr4, dr5, dr6, dr7, dr8])
+    weights /= jnp.sum(weights, axis=0)
+    val = jnp.sum(
+        jnp.stack([val1, val2, val3, val4, val5, val6, val7, val8]) * weights,
+        axis=0,
     )
 
     return val
-- 
2.43.0


From 7cbe868c7026ceb46dc8240fc085ff62bf2ccbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 04/38] fix: log_point maps return log10 of the map value

---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 4845980..73918e1 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -265,7 +265,7 @@ class Map(Config):
         val = self.interpolator(
             self.preprocess(pos),
             self.preprocess(self.coordinate_system),
-            self.preprocess(self.map),
+            self.map,
         )
         return val
 
-- 
2.43.0


From d509f85ab57b9f5870c24910113062a744827765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 05/38] fix: restoring a context fails for true, false or null
 in the instructions

---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 2e49d3e..def8b48 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -60,7 +60,7 @@ class Context:
     def from_backend(cls, backend_h5_file_name, moves=None):
         """Initialize context from a backend_h5 file."""
         with h5py.File(get_file_path(backend_h5_file_name)) as file:
-            instruct = eval(file["mcmc"].attrs["instruct"])
+            instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
         tree = cls(instruct)
-- 
2.43.0


From afcc8ff41844c415b854b8a4fe620ceb040c17c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 06/38] fix: 1D regbin maps can not be evaluated

---
 appletree/interpolation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 31321c1..eb247a0 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -109,7 +109,10 @@ def map_interpolator_regular_binning_1d(pos, ref_pos_lowers, ref_pos_uppers, ref
     """
     assert len(pos.shape) == 1, "pos must have 1 columns"
 
-    ref_pos = jnp.linspace(ref_pos_lowers, ref_pos_uppers, len(ref_val))
+    # lowers and uppers have shape (1,), but the reference points should be 1D
+    ref_pos = jnp.linspace(
+        jnp.squeeze(ref_pos_lowers), jnp.squeeze(ref_pos_uppers), len(ref_val)
+    )
     val = curve_interpolator(pos, ref_pos, ref_val)
 
     return val
-- 
2.43.0


From 98aca56dec49e2ec72883e32a03bfa6720e05b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 07/38] fix: posterior parameters are stale after refitting or
 continuing a fit

---
 appletree/context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/appletree/context.py b/appletree/context.py
index def8b48..63b4ef8 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -323,10 +323,12 @@ class Context:
         """
         # Assign attributes for the first time
         # This speeds up if the user wanna call this function many times
-        if not hasattr(self, "_logp"):
+        # The chain is only reusable if the sampler did not run since then
+        state = (self.sampler, self.sampler.iteration)
+        if getattr(self, "_chain_state", None) != state:
             self._logp = self.sampler.get_log_prob(flat=True)
-        if not hasattr(self, "_chain"):
             self._chain = self.sampler.get_chain(flat=True)
+            self._chain_state = state
         if which == "mpe":
             _parameters = self._chain[np.argmax(self._logp)]
         elif which == "random":
-- 
2.43.0


From 370b466af79c361d2b95612a6d13e683059cc958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 08/38] fix: fits without backend file can not be continued

---
 appletree/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 63b4ef8..3100581 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -283,7 +283,8 @@ class Context:
         # If context is None, use self, i.e. continue the fitting defined in self
         if context is None:
             context = self
-            p0 = None
+            # The backend in memory does not outlive its sampler, so start from its final state
+            p0 = context.sampler.get_last_sample() if self.backend_h5 is None else None
         else:
             # Final iteration
             final_iteration = context.sampler.get_chain()[-1, :, :]
-- 
2.43.0


From e7e152d2d144e6b7d1bdac8cb7d9d1b95e89aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 09/38] fix: lineage of a plugin reports the configs of the
 last built instance

---
 appletree/plugin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/plugin.py b/appletree/plugin.py
index 212ad6b..8b973dd 100644
--- a/appletree/plugin.py
+++ b/appletree/plugin.py
@@ -100,7 +100,8 @@ class Plugin:
             "takes_config": dict(
                 zip(
                     self.takes_config.keys(),
-                    [v.lineage for v in self.takes_config.values()],
+                    # configs of this instance, self.takes_config is shared by all instances
+                    [getattr(self, v.name).lineage for v in self.takes_config.values()],
                 )
             ),
         }
-- 
2.43.0


From 5471f6ea3359ce7b30618f4c89a65aa9529815f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 10/38] fix: lineage of ConstantSet can not be dumped to json

---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 73918e1..54ac799 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -596,5 +596,5 @@ class ConstantSet(Config):
     def lineage(self):
         return {
             "llh_name": self.llh_name,
-            "value": self.value,
+            "value": {k: v.tolist() for k, v in self.value.items()},
         }
-- 
2.43.0


From e868154d02bf01ac2cc8081e55360e394a4e8d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 11/38] fix: a likelihood can not have more than one simulated
 component

---
 appletree/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index de7c5d6..dcb4388 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -381,8 +381,8 @@ class ComponentSim(Component):
         output = "key, " + "[" + ", ".join(data_names) + "]"
         code += f"{indent}return {output}\n"
 
-        self.code = code
         self.instances = instances
+        self.code = code
 
         if func_name in _cached_functions[self.llh_name].keys():
             warning = f"Function name {func_name} is already cached. "
@@ -397,7 +397,11 @@ class ComponentSim(Component):
     @code.setter
     def code(self, code):
         self._code = code
-        _cached_functions[self.llh_name] = dict()
+        # Components of a likelihood share the namespace, unless
+        # their function or plugin instances would be overwritten
+        names = {self.func_name, *self.instances}
+        if not names.isdisjoint(_cached_functions.get(self.llh_name, names)):
+            _cached_functions[self.llh_name] = dict()
         self._compile = partial(exec, self.code, _cached_functions[self.llh_name])
 
     def deduce(
-- 
2.43.0


From 30492837c50bf98cf11e5b6b5c3dd4fdb6b6bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 12/38] fix: component ignores efficiency forever once deduced
 with force_no_eff

---
 appletree/component.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/appletree/component.py b/appletree/component.py
index dcb4388..196a65d 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -428,9 +428,8 @@ class ComponentSim(Component):
             data_names.remove("eff")
         if not force_no_eff:
             data_names += ["eff"]
-        else:
-            # track status of component
-            self.force_no_eff = True
+        # track status of component
+        self.force_no_eff = force_no_eff
 
         dependencies = self.dependencies_deduce(data_names, nodep_data_name=nodep_data_name)
         self.dependencies_simplify(dependencies)
-- 
2.43.0


From 5fbbce862e9951efaeea3f059d3e68e56f8be0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 13/38] fix: on_sim normalization fails for components without
 energy plugin

---
 appletree/component.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index 196a65d..3ae924b 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -80,7 +80,9 @@ class Component:
 
     @property
     def _use_mcinput(self):
-        return "Bootstrap" in self._plugin_class_registry["energy"].__name__
+        # ComponentFixed has no plugin, and energy is not mandatory
+        energy_plugin = getattr(self, "_plugin_class_registry", dict()).get("energy", None)
+        return energy_plugin is not None and "Bootstrap" in energy_plugin.__name__
 
     def simulate_hist(self, *args, **kwargs):
         """Hook for simulation with histogram output."""
-- 
2.43.0


From 94e16a810aa499e1449cab931137a351627cf776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 14/38] fix: multiple_simulations_compile fails when g4 is not
 configured

---
 appletree/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index 3ae924b..3969dc2 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -115,7 +115,7 @@ class Component:
         limit of GPU."""
         results_pile = []
         for _ in range(times):
-            if _cached_configs["g4"] and self._use_mcinput:
+            if self._use_mcinput and _cached_configs["g4"]:
                 if isinstance(_cached_configs["g4"], dict):
                     g4_file_name = _cached_configs["g4"][self.llh_name][0]
                     _cached_configs["g4"][self.llh_name] = [
-- 
2.43.0


From 3a8c9a10f0c15f8b065d005766d6f687b2a7ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 15/38] fix: get_template ignores the parameter alias of the
 likelihood

---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 3100581..5e9062e 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -414,7 +414,7 @@ class Context:
         key, result = self[likelihood_name][component_name].simulate(
             key,
             batch_size,
-            parameters,
+            self[likelihood_name].replace_alias(parameters),
         )
         return result
 
-- 
2.43.0


From e31212a05a6a3351a58af856226c0834d10ed3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 16/38] fix: wrong GPU memory fraction for fractions below 0.1
 or equal to 1

---
 appletree/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 6b08084..100121b 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -267,11 +267,11 @@ def set_gpu_memory_usage(fraction=0.3):
     See more on https://jax.readthedocs.io/en/latest/gpu_memory_allocation.html
 
     """
-    if fraction > 1:
+    if fraction >= 1:
         fraction = 0.99
     if fraction <= 0:
         raise ValueError("fraction must be positive!")
-    os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = f".{int(fraction * 100):d}"
+    os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = f"{fraction:g}"
 
 
 @export
-- 
2.43.0


From 610776e515763b8e6d4cf9c0298163ac4dd12ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 17/38] fix: extensions silently overwrite a module with the
 same last name

---
 appletree/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 100121b..84f933e 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -571,7 +571,8 @@ def add_extensions(module1, module2, base, force=False):
 
     """
     # Assign the module2 as attribute of module1
-    is_exists = module2.__name__ in dir(module1)
+    module_name = module2.__name__.split(".")[-1]
+    is_exists = module_name in dir(module1)
     if is_exists and not force:
         raise ValueError(
             f"{module2.__name__} already existed in {module1.__name__}, "
@@ -580,7 +581,7 @@ def add_extensions(module1, module2, base, force=False):
     else:
         if is_exists:
             print(f"You have forcibly registered {module2.__name__} to {module1.__name__}")
-        setattr(module1, module2.__name__.split(".")[-1], module2)
+        setattr(module1, module_name, module2)
 
     # Iterate the module2 and assign the single Plugin(s) as attribute(s)
     for x in dir(module2):
-- 
2.43.0


From 50e31865f057dd189a7756ec6c7b6f18c1a7fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 18/38] fix: zero weighted events veto the literature
 likelihood

---
 appletree/likelihood.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/likelihood.py b/appletree/likelihood.py
index 765c856..5b247da 100644
--- a/appletree/likelihood.py
+++ b/appletree/likelihood.py
@@ -555,7 +555,9 @@ class LikelihoodLit(Likelihood):
         key, result = self._simulate_yields(key, 1, parameters)
         energies, yields, eff = result
         llh = self.logpdf(energies, yields)
-        llh = (llh * eff).sum()
+        # events with zero weight should not contribute, even if logpdf is not finite
+        llh = np.where(eff > 0, llh, 0.0) * eff
+        llh = llh.sum()
         llh = float(llh)
         if np.isnan(llh):
             llh = -np.inf
-- 
2.43.0


From 542138f817df5ae77bdb38ba4939a429ab7cfb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 19/38] fix: restored context does not use the parameters of
 the fit

---
 appletree/context.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 5e9062e..ab75dc4 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -63,7 +63,13 @@ class Context:
             instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
-        tree = cls(instruct)
+            par_config = json.loads(file["mcmc"].attrs["par_config"])
+        # Parameters might have been set manually, so use the ones in the backend
+        # and recover the copied ones which were dropped in update_parameter_config
+        for likelihood in instruct["likelihoods"].values():
+            for k, v in likelihood["copy_parameters"].items():
+                par_config.setdefault(v, par_config[k])
+        tree = cls(instruct, par_config=par_config)
         # Overwrite the backend_h5 file name. If the user renames the
         # backend file then it could be different from the one in intruct
         tree.backend_h5 = backend_h5_file_name
-- 
2.43.0


From 763199deb3c3f4e7ad63ee82614169a88083b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 20/38] fix: simulation uses data from the plugin which should
 have been overridden

---
 appletree/component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index 3969dc2..76e9278 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -376,7 +376,10 @@ class ComponentSim(Component):
         code += f"def {func_name}(key, {nodep_data_name}, parameters):\n"
 
         for work in self.worksheet:
-            provides = "key, " + ", ".join(work[1])
+            # do not overwrite data which should be provided by another plugin
+            provides = "key, " + ", ".join(
+                p if self._plugin_class_registry[p].__name__ == work[0] else "_" for p in work[1]
+            )
             depends_on = ", ".join(work[2])
             instance = work[0] + "_" + self.name
             code += f"{indent}{provides} = {instance}(key, parameters, {depends_on})\n"
-- 
2.43.0


From cbe3ba86fe49b22793dc7798e3bab7bc6be5a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 21/38] fix: plot_maps misses the maps of all but the last
 likelihood

---
 appletree/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index b291874..2d9d6b9 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -472,8 +472,11 @@ def _collect_maps(context):
                 provides = work[1]
                 # Look up the plugin class via its first provides name
                 plugin_class = component._plugin_class_registry[provides[0]]
+                # Configs of the class are those of the last built likelihood
+                plugin = plugin_class(component.llh_name)
 
-                for config in plugin_class.takes_config.values():
+                for config_name in plugin.takes_config:
+                    config = getattr(plugin, config_name)
                     if isinstance(config, SigmaMap):
                         key = (
                             config.median.file_path,
-- 
2.43.0


From 29cdc8a59e5858a46508c023fc9dfdddce7dfc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 22/38] fix: figures of a 2D SigmaMap overwrite each other when
 saved

---
 appletree/plot.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index 2d9d6b9..e4bfca7 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -848,10 +848,15 @@ def plot_maps(context, collapse=None, save=False, save_path=".", fmt="png"):
         fig_ax_list = _plot_config(config, map_collapse)
         if fig_ax_list is None:
             continue
-        for fig_ax in fig_ax_list:
+        if len(fig_ax_list) > 1:
+            # 2D SigmaMap has one figure for each of its maps
+            saved_configs = [config.lower, config.median, config.upper]
+        else:
+            saved_configs = [config]
+        for fig_ax, saved_config in zip(fig_ax_list, saved_configs):
             figures.append(fig_ax)
             if save:
-                _save_figure(fig_ax[0], config, save_path, fmt)
+                _save_figure(fig_ax[0], saved_config, save_path, fmt)
 
     return figures
 
-- 
2.43.0


From 4e0a24c16cd4967a8c63964ff9aa4902cf300e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 23/38] fix: method of 1D regbin maps is ignored

---
 appletree/config.py        |  5 ++++-
 appletree/interpolation.py | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 54ac799..35e7381 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -342,7 +342,10 @@ class Map(Config):
 
     def _get_regbin_interpolator(self, ndim):
         """Return the regular-binning interpolator for the given dimensionality."""
-        if ndim == 1:
+        if ndim == 1 and self.method == "NN":
+            return interpolation.map_interpolator_regular_binning_nearest_neighbor_1d
+        if ndim == 1 and self.method in ("IDW", "LERP"):
+            # they are the same in 1D
             return interpolation.map_interpolator_regular_binning_1d
         key = (ndim, self.method)
         try:
diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index eb247a0..87ca418 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -365,6 +365,27 @@ def map_interpolator_nearest_neighbor_1d(pos, ref_pos, ref_val):
     return val
 
 
+@export
+@jit
+def map_interpolator_regular_binning_nearest_neighbor_1d(
+    pos, ref_pos_lowers, ref_pos_uppers, ref_val
+):
+    """Nearest neighbor 1D interpolation.
+
+    A uniform mesh grid binning is assumed.
+        Args:
+            pos: array with shape (N,), positions at which the interp is calculated.
+            ref_pos_lowers: array with shape (1,), the lower edges of the binning on each dimension.
+            ref_pos_uppers: array with shape (1,), the upper edges of the binning on each dimension.
+            ref_val: array with shape (M1,), map values.
+
+    """
+    ref_pos = jnp.linspace(
+        jnp.squeeze(ref_pos_lowers), jnp.squeeze(ref_pos_uppers), len(ref_val)
+    )
+    return map_interpolator_nearest_neighbor_1d(pos, ref_pos, ref_val)
+
+
 @export
 @jit
 def map_interpolator_regular_binning_nearest_neighbor_2d(
-- 
2.43.0


From 2a7aaa77b12ac915ba3dcd6188123b5144e0a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 24/38] fix: profiler and plot_maps look up the wrong plugin
 for overridden data

---
 appletree/plot.py     | 6 +++---
 appletree/profiler.py | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index e4bfca7..ab7c1fd 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -10,6 +10,7 @@ import matplotlib
 import matplotlib.cm as cm
 import matplotlib.pyplot as plt
 
+from appletree import plugins
 from appletree.utils import errors_to_two_half_norm_sigmas
 from appletree.randgen import TwoHalfNorm
 from appletree.config import Map, SigmaMap
@@ -469,9 +470,8 @@ def _collect_maps(context):
             # Only iterate over plugins actually used in the
             # simulation (worksheet), not all registered plugins.
             for work in component.worksheet:
-                provides = work[1]
-                # Look up the plugin class via its first provides name
-                plugin_class = component._plugin_class_registry[provides[0]]
+                # Not via its provides, which might have been overridden by another plugin
+                plugin_class = getattr(plugins, work[0])
                 # Configs of the class are those of the last built likelihood
                 plugin = plugin_class(component.llh_name)
 
diff --git a/appletree/profiler.py b/appletree/profiler.py
index d18219b..7c452c6 100644
--- a/appletree/profiler.py
+++ b/appletree/profiler.py
@@ -109,7 +109,8 @@ def profile_component(
         plugin_name = work[0]
         provides = work[1]
 
-        plugin_class = component._plugin_class_registry[provides[0]]
+        # provides[0] might have been overridden by another plugin
+        plugin_class = getattr(apt.plugins, plugin_name)
         plugin_instance = plugin_class(component.llh_name)
 
         key, output_data, mean_time, std_time = profile_plugin(
@@ -121,7 +122,9 @@ def profile_component(
             n_runs=n_runs,
         )
 
-        data_store.update(output_data)
+        for name, data in output_data.items():
+            if component._plugin_class_registry[name].__name__ == plugin_name:
+                data_store[name] = data
         total_time += mean_time
 
         result = {
-- 
2.43.0


From c1a4a3d597f2669bddc5e8b949cc118255c519eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 25/38] fix: built SigmaMap takes its scaler from options set
 afterwards

---
 appletree/config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 35e7381..542ef4d 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -491,6 +491,8 @@ class SigmaMap(Config):
         self.upper.build(llh_name=self.llh_name)
 
         required_parameter = self.required_parameter()
+        # The options might change afterwards, while the maps built here stay
+        self.scaler = required_parameter
         if required_parameter is not None:
             print(
                 f"{self.llh_name}'s map {self.name} is using "
@@ -544,10 +546,10 @@ class SigmaMap(Config):
 
     def apply(self, pos, parameters):
         """Apply SigmaMap with sigma and position."""
-        if self.required_parameter() is None:
+        if self.scaler is None:
             sigma = 1.0
         else:
-            sigma = parameters[self.required_parameter()]
+            sigma = parameters[self.scaler]
         median = self.median.apply(pos)
         lower = self.lower.apply(pos)
         upper = self.upper.apply(pos)
-- 
2.43.0


From a7a45556ac7365fb0a93371ed64ac45c1c59e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 26/38] fix: lineage of SigmaMap misses the name of its scaler

---
 appletree/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/config.py b/appletree/config.py
index 542ef4d..205cabc 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -563,6 +563,7 @@ class SigmaMap(Config):
         return {
             "llh_name": self.llh_name,
             "method": self.method,
+            "scaler": self.scaler,
             "median": self.median.lineage,
             "lower": self.lower.lineage,
             "upper": self.upper.lineage,
-- 
2.43.0


From f0a9e629f6f8767f6a17c15f1c04c7ab034a887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 27/38] fix: clip the equal-probability bins by the range of
 the axis they belong to

---
 appletree/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 84f933e..d508af0 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -348,9 +348,10 @@ def get_equiprob_bins_2d(
         integer=integer,
         left=left,
     )
-    # To be strict, clip the inf(s)
-    x_bins = np.clip(x_bins, *x_clip)
-    y_bins = np.clip(y_bins, *y_clip)
+    # To be strict, clip the inf(s), the first bins are those of the dimension binned first
+    clips = (x_clip, y_clip)
+    x_bins = np.clip(x_bins, *clips[order[0]])
+    y_bins = np.clip(y_bins, *clips[order[1]])
 
     return which_np.array(x_bins), which_np.array(y_bins)
 
-- 
2.43.0


From 8f88f0c9ee661ae479c599e4b8ef1dfc74a7048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:24 +0000
Subject: [PATCH 28/38] fix: lineage of components misses the histogram floor
 and the columns of the file

---
 appletree/component.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/appletree/component.py b/appletree/component.py
index 76e9278..4b8aa88 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -589,6 +589,7 @@ class ComponentSim(Component):
         return {
             "rate_name": self.rate_name,
             "norm_type": self.norm_type,
+            "add_eps_to_hist": self.add_eps_to_hist,
             "code": self.code,
             "instances": dict(
                 zip(
@@ -613,11 +614,13 @@ class ComponentFixed(Component):
             raise ValueError("Should provide file_name for ComponentFixed!")
         else:
             self._file_name = kwargs.get("file_name", None)
+        self._data_names = None
         super().__init__(*args, **kwargs)
 
     def deduce(self, data_names: Union[List[str], Tuple[str]] = ["cs1", "cs2"]):
         """Deduce the needed parameters and make the fixed histogram."""
-        self.data = load_data(self._file_name)[list(data_names)].to_numpy()
+        self._data_names = list(data_names)
+        self.data = load_data(self._file_name)[self._data_names].to_numpy()
         self.eff = jnp.ones(len(self.data))
         self.hist = self.implement_binning(self.data, self.eff)
         self.needed_parameters.add(self.rate_name)
@@ -647,6 +650,8 @@ class ComponentFixed(Component):
         return {
             "rate_name": self.rate_name,
             "norm_type": self.norm_type,
+            "add_eps_to_hist": self.add_eps_to_hist,
+            "data_names": self._data_names,
             "bins": tuple(b.tolist() for b in self.bins) if self.bins is not None else self.bins,
             "bins_type": self.bins_type,
             "file_path": (
-- 
2.43.0


From 5c265eff3a971b0f21898573b41cd423d5daa32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:16 +0000
Subject: [PATCH 29/38] fix: continue the backend file that was found when
 restoring a context

---
 appletree/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index ab75dc4..2ba05c5 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -59,7 +59,8 @@ class Context:
     @classmethod
     def from_backend(cls, backend_h5_file_name, moves=None):
         """Initialize context from a backend_h5 file."""
-        with h5py.File(get_file_path(backend_h5_file_name)) as file:
+        backend_h5_file_name = get_file_path(backend_h5_file_name)
+        with h5py.File(backend_h5_file_name) as file:
             instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
-- 
2.43.0


From 3179a853377045c507fa3b346c580c89ff7ff467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:55 +0000
Subject: [PATCH 30/38] fix: plot the autocorrelation of a fit with one
 parameter

---
 appletree/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index ab7c1fd..4136eb6 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -352,8 +352,8 @@ class Plotter:
             axes.append(ax)
 
         # Set xlabels of the last two axes
-        axes[-1].set_xlabel("Number of iterations after burn-in")
-        axes[-2].set_xlabel("Number of iterations after burn-in")
+        for ax in axes[-2:]:
+            ax.set_xlabel("Number of iterations after burn-in")
 
         # Set legend
         handles, labels = axes[-1].get_legend_handles_labels()
-- 
2.43.0


From 0dc1d031f131b6effe05dcee8170390b812a6a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:55 +0000
Subject: [PATCH 31/38] fix: figures of maps whose files have the same name
 overwrite each other when saved

---
 appletree/plot.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index 4136eb6..df42117 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -1,6 +1,8 @@
 import os
 from warnings import warn
 import json
+from typing import Set
+
 import numpy as np
 from scipy.stats import norm
 import h5py
@@ -788,13 +790,18 @@ def _plot_config(config, map_collapse):
     return None
 
 
-def _save_figure(fig, config, save_path, fmt):
-    """Save a figure to disk in each requested format."""
+def _save_figure(fig, config, save_path, fmt, used_stems):
+    """Save a figure to disk in each requested format, not under one of the used names."""
     if isinstance(config, SigmaMap):
         file_path = config.median.file_path
     else:
         file_path = config.file_path
-    stem = os.path.splitext(os.path.basename(file_path))[0]
+    base = stem = os.path.splitext(os.path.basename(file_path))[0]
+    n_used = 0
+    while stem in used_stems:
+        n_used += 1
+        stem = f"{base}_{n_used}"
+    used_stems.add(stem)
     for f in fmt:
         fig.savefig(os.path.join(save_path, f"{stem}.{f}"))
 
@@ -837,6 +844,8 @@ def plot_maps(context, collapse=None, save=False, save_path=".", fmt="png"):
     """
     collected = _collect_maps(context)
     figures = []
+    # Different maps might come from files with the same name
+    used_stems: Set[str] = set()
 
     if save:
         os.makedirs(save_path, exist_ok=True)
@@ -856,7 +865,7 @@ def plot_maps(context, collapse=None, save=False, save_path=".", fmt="png"):
         for fig_ax, saved_config in zip(fig_ax_list, saved_configs):
             figures.append(fig_ax)
             if save:
-                _save_figure(fig_ax[0], saved_config, save_path, fmt)
+                _save_figure(fig_ax[0], saved_config, save_path, fmt, used_stems)
 
     return figures
 
-- 
2.43.0


From 9f03fae1b9ea94816b67c9ec86efbffd2d29a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:55 +0000
Subject: [PATCH 32/38] fix: plot the maps of the simulation even if options
 changed after it was built

---
 appletree/plot.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/appletree/plot.py b/appletree/plot.py
index df42117..8ebf83e 100644
--- a/appletree/plot.py
+++ b/appletree/plot.py
@@ -17,6 +17,7 @@ from appletree.utils import errors_to_two_half_norm_sigmas
 from appletree.randgen import TwoHalfNorm
 from appletree.config import Map, SigmaMap
 from appletree.component import ComponentSim
+from appletree.share import _cached_functions
 
 
 class Plotter:
@@ -472,10 +473,12 @@ def _collect_maps(context):
             # Only iterate over plugins actually used in the
             # simulation (worksheet), not all registered plugins.
             for work in component.worksheet:
-                # Not via its provides, which might have been overridden by another plugin
-                plugin_class = getattr(plugins, work[0])
-                # Configs of the class are those of the last built likelihood
-                plugin = plugin_class(component.llh_name)
+                # The instance which is used in the simulation, because options might
+                # have changed after it was built
+                instances = _cached_functions.get(component.llh_name, {})
+                plugin = instances.get(work[0] + "_" + component.name)
+                if plugin is None:
+                    plugin = getattr(plugins, work[0])(component.llh_name)
 
                 for config_name in plugin.takes_config:
                     config = getattr(plugin, config_name)
-- 
2.43.0


From 9bf4fa27129b8664fd0cdf099f953a2873c84d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 33/38] fix: NR light yield is not NaN at zero energy

---
 appletree/plugins/nestv2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/plugins/nestv2.py b/appletree/plugins/nestv2.py
index 2d5b175..204fb36 100644
--- a/appletree/plugins/nestv2.py
+++ b/appletree/plugins/nestv2.py
@@ -124,7 +124,7 @@ class LyNR(Plugin):
 
     @partial(jit, static_argnums=(0,))
     def simulate(self, key, parameters, energy, _Nq, charge_yield):
-        light_yield = _Nq / energy - charge_yield
+        light_yield = jnp.where(energy > 0, _Nq / energy, 0.0) - charge_yield
         light_yield *= 1 - 1 / (1 + (energy / parameters["theta"]) ** parameters["iota"])
         light_yield = jnp.clip(light_yield, 0, jnp.inf)
         return key, light_yield
-- 
2.43.0


From ec989f706ad2f00c9a992389276045573dd4bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 34/38] fix: ER electron fraction is not NaN when there are no
 quanta

---
 appletree/plugins/er_nestv2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/plugins/er_nestv2.py b/appletree/plugins/er_nestv2.py
index 54d18ee..806dbfd 100644
--- a/appletree/plugins/er_nestv2.py
+++ b/appletree/plugins/er_nestv2.py
@@ -120,7 +120,8 @@ class MeanExcitonIonER(Plugin):
 
     @partial(jit, static_argnums=(0,))
     def simulate(self, key, parameters, nex_ni_ratio, _Nph, _Ne):
-        elecFrac = _Ne / (_Nph + _Ne)
+        _Nq = _Nph + _Ne
+        elecFrac = jnp.where(_Nq > 0, _Ne / _Nq, 0.0)
         recombProb = 1.0 - (nex_ni_ratio + 1.0) * elecFrac
         recombProb = jnp.maximum(recombProb, 0.0)
         return key, elecFrac, recombProb
-- 
2.43.0


From 4374df9d99ada27e3d3960a728259f43c100ce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 35/38] fix: add_spaces keeps the line breaks of a string

---
 appletree/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index d508af0..d2f5e2c 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -443,7 +443,7 @@ def add_spaces(x):
     correctly."""
     y = ""
     if isinstance(x, str):
-        x = x.split("\n")
+        x = x.splitlines(keepends=True)
     for q in x:
         y += "    " + q
     return y
-- 
2.43.0


From 3f8820fb1ce52ccf7bc563ee50a564af09b3f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 36/38] fix: pass with_data_names to the plugins further down
 the graph

---
 appletree/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/appletree/utils.py b/appletree/utils.py
index d2f5e2c..1b58ea4 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -555,6 +555,7 @@ def add_plugins_to_graph_tree(
                 graph_tree,
                 plugin.depends_on,
                 _seen,
+                with_data_names=with_data_names,
             )
         _seen.append(plugin_name)
     return graph_tree, _seen
-- 
2.43.0


From 3e19a4cf76c10722931b020386927fe3f22450c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 37/38] fix: parameters fixed in an edited configuration were
 still fitted after init_parameter

---
 appletree/parameter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/appletree/parameter.py b/appletree/parameter.py
index 03baebb..c0f45b7 100644
--- a/appletree/parameter.py
+++ b/appletree/parameter.py
@@ -27,8 +27,6 @@ class Parameter:
         else:
             raise RuntimeError("Parameter configuration should be file name or dictionary")
 
-        self._parameter_fixed = set()
-        self._parameter_fit = set()
         self.init_parameter()
 
     def init_parameter(self, seed=None):
@@ -40,6 +38,8 @@ class Parameter:
 
         """
         self._parameter_dict = {par_name: 0 for par_name in self.par_config.keys()}
+        self._parameter_fixed = set()
+        self._parameter_fit = set()
 
         for par_name in self.par_config.keys():
             if self.par_config[par_name]["prior_type"] == "fixed":
-- 
2.43.0


From 7f0451bc9352b3b2f3af77bb32e08acf1b6f87f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 38/38] fix: maps declared as density were shifted by half an
 interval when turned into quantiles

---
 appletree/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 205cabc..f734efd 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -374,9 +374,10 @@ class Map(Config):
     def pdf_to_cdf(self, x, pdf):
         """Convert pdf map to cdf map."""
         norm = integrate_midpoint(x, pdf)
-        x, cdf = cumulative_integrate_midpoint(x, pdf)
-        cdf /= norm
-        return x, cdf
+        # The integral is up to the upper end of each interval, and 0 at the first position
+        _, cdf = cumulative_integrate_midpoint(x, pdf)
+        cdf = np.append(0.0, cdf) / norm
+        return np.array(x), cdf
 
     @property
     def lineage(self):
-- 
2.43.0

