From 82ad7ca19efb5ac08fb3083d0e52e7fc419732d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 01/49] fix: precision root of a full covariance satisfies prec
 = sqrt @ sqrt.T

---
 mocat/src/scenarios/toy_examples.py | 2 +-
 mocat/src/utils.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 40242b6..4dce127 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -40,7 +40,7 @@ class Gaussian(Scenario):
     def likelihood_potential(self,
                              x: jnp.ndarray,
                              random_key: jnp.ndarray = None) -> Union[float, jnp.ndarray]:
-        x_diff = self.precision_mul(x - self.mean, self.precision_sqrt.T)
+        x_diff = self.precision_mul(x - self.mean, self.precision_sqrt)
         return 0.5 * jnp.square(x_diff).sum(axis=-1)
 
     def __setattr__(self,
diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 15aead8..16a0c88 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -257,7 +257,7 @@ def reset_covariance(obj: Any,
     else:
         sqrt_mat = jnp.linalg.cholesky(value)
         setattr(obj, key + '_sqrt', sqrt_mat)
-        setattr(obj, prec_key + '_sqrt', jnp.linalg.inv(sqrt_mat))
+        setattr(obj, prec_key + '_sqrt', jnp.linalg.inv(sqrt_mat).T)
         setattr(obj, prec_key + '_det', 1 / jnp.linalg.det(value))
         setattr(obj, prec_key + '_mul', lambda a, b: a @ b)
 
-- 
2.43.0


From d3c43ec4d0245ec540b24361d91385944fc59b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 02/49] fix: Gaussian mixture components are normalised
 Gaussian densities

---
 mocat/src/scenarios/toy_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 4dce127..99e603a 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -97,9 +97,9 @@ class GaussianMixture(Scenario):
                             x: jnp.ndarray,
                             component_index: int) -> Union[float, jnp.ndarray]:
         return 0.5 * jnp.sum(jnp.square((x - self.means[component_index]) @
-                                      self.precision_sqrts[component_index].T), axis=-1) \
+                                      self.precision_sqrts[component_index]), axis=-1) \
                - jnp.log(self.weights[component_index]
-                        * self.precision_dets[component_index]
+                        * jnp.sqrt(self.precision_dets[component_index])
                         / jnp.power(2 * jnp.pi, self.dim * 0.5))
 
     def component_dens(self,
-- 
2.43.0


From 06c2c91efa03eb071effd3609da4c1def97dbf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:01 +0000
Subject: [PATCH 03/49] fix: Gaussian mixture no longer evaluates stale
 compiled parameters after they change

---
 mocat/src/scenarios/toy_examples.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mocat/src/scenarios/toy_examples.py b/mocat/src/scenarios/toy_examples.py
index 99e603a..e0b9b54 100644
--- a/mocat/src/scenarios/toy_examples.py
+++ b/mocat/src/scenarios/toy_examples.py
@@ -5,6 +5,7 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
+from functools import partial
 from typing import Union, Any, Callable
 
 import jax.numpy as jnp
@@ -83,11 +84,13 @@ class GaussianMixture(Scenario):
             self.precision_sqrts = vmap(jnp.linalg.cholesky)(self.precisions)
             self.precision_dets = vmap(jnp.linalg.det)(self.precisions)
 
-            self.component_potential = jit(self.component_potential)
+        if key in ('means', 'weights', 'covariances'):
+            # fresh functions, otherwise jit would reuse traces of the previous values
+            cls = type(self)
+            self.component_potential = jit(partial(cls.component_potential, self))
             self.component_potentials = jit(vmap(self.component_potential, (None, 0), 0))
-            self.component_dens = jit(self.component_dens)
-            self.dens = jit(self.dens)
-            self.component_potential = jit(self.component_potential)
+            self.component_dens = jit(partial(cls.component_dens, self))
+            self.dens = jit(partial(cls.dens, self))
 
     @property
     def n_components(self) -> int:
-- 
2.43.0


From c0c90f9e684a4567db9628e57f04fc460e9c9a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:44 +0000
Subject: [PATCH 04/49] fix: non-linear Gaussian transition draws have the
 transition covariance

---
 mocat/src/ssm/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index c5f1f9d..cc33b93 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -110,7 +110,7 @@ class NonLinearGaussian(StateSpaceModel):
                           t_new: float,
                           random_key: jnp.ndarray) -> jnp.ndarray:
         return self.transition_function(x_previous, t_previous, t_new) \
-               + random.normal(random_key, shape=x_previous.shape) @ self.transition_covariance_sqrt
+               + random.normal(random_key, shape=x_previous.shape) @ self.transition_covariance_sqrt.T
 
     def likelihood_potential(self,
                              x: jnp.ndarray,
-- 
2.43.0


From a3b1060ddab4421f8fa0456b80915dda243ccc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:44 +0000
Subject: [PATCH 05/49] fix: stochastic volatility transition density scales
 with the elapsed time as its draws do

---
 mocat/src/ssm/scenarios/stochastic_volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/scenarios/stochastic_volatility.py b/mocat/src/ssm/scenarios/stochastic_volatility.py
index bf5c69e..b97d144 100644
--- a/mocat/src/ssm/scenarios/stochastic_volatility.py
+++ b/mocat/src/ssm/scenarios/stochastic_volatility.py
@@ -82,7 +82,7 @@ class StochasticVolatility(StateSpaceModel):
                              t_new: float) -> Union[float, jnp.ndarray]:
         return gaussian_potential(x_new,
                                   x_previous @ self.transition_matrix.T,
-                                  sqrt_prec=self.transition_precision_sqrt * jnp.sqrt(t_new - t_previous))
+                                  sqrt_prec=self.transition_precision_sqrt / jnp.sqrt(t_new - t_previous))
 
     def transition_sample(self,
                           x_previous: jnp.ndarray,
-- 
2.43.0


From f88cd50cf28329a0f67f2e51491db8eca8e19b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:44 +0000
Subject: [PATCH 06/49] fix: default observation noise of stochastic volatility
 is a diagonal, one entry per coordinate

---
 mocat/src/ssm/scenarios/stochastic_volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/scenarios/stochastic_volatility.py b/mocat/src/ssm/scenarios/stochastic_volatility.py
index b97d144..e2d928c 100644
--- a/mocat/src/ssm/scenarios/stochastic_volatility.py
+++ b/mocat/src/ssm/scenarios/stochastic_volatility.py
@@ -49,7 +49,7 @@ class StochasticVolatility(StateSpaceModel):
         self.transition_covariance = transition_covariance
 
         if likelihood_covariance_diag is None:
-            likelihood_covariance_diag = jnp.eye(self.dim)
+            likelihood_covariance_diag = jnp.ones(self.dim)
         self.likelihood_covariance_diag = likelihood_covariance_diag
 
         super().__init__(name=name)
-- 
2.43.0


From d904e6714f890ab0b2e5a465b19dfa595dac6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 07/49] fix: mixed derivative of the preconditioned Gaussian
 kernel

---
 mocat/src/kernels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/kernels.py b/mocat/src/kernels.py
index 5e962ea..36a515b 100644
--- a/mocat/src/kernels.py
+++ b/mocat/src/kernels.py
@@ -156,7 +156,8 @@ class PreconditionedGaussian(Kernel):
                       y: jnp.ndarray,
                       bandwidth: float,
                       precision: jnp.ndarray) -> Union[float, jnp.ndarray]:
-        return precision / bandwidth ** 2 @ (1 - precision * ((x - y) / bandwidth) ** 2) \
+        diff = (x - y) / bandwidth
+        return (jnp.diag(precision) - (precision @ diff) ** 2) / bandwidth ** 2 \
                * self._call(x, y,
                             bandwidth=bandwidth,
                             precision=precision)
-- 
2.43.0


From abea2ce7bbcd4b7017443b69be84960e50c4c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 08/49] fix: IMQ kernel gradient in x scales with the bandwidth

---
 mocat/src/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/kernels.py b/mocat/src/kernels.py
index 36a515b..f90fbd4 100644
--- a/mocat/src/kernels.py
+++ b/mocat/src/kernels.py
@@ -192,7 +192,7 @@ class IMQ(Kernel):
                 beta: Union[float, jnp.ndarray],
                 bandwidth: Union[float, jnp.ndarray]) -> Union[float, jnp.ndarray]:
         diff = (x - y) / bandwidth
-        return diff * beta * jnp.power(c + 0.5 * jnp.sum(jnp.square(diff), axis=-1), beta - 1)
+        return diff / bandwidth * beta * jnp.power(c + 0.5 * jnp.sum(jnp.square(diff), axis=-1), beta - 1)
 
     @partial(jit, static_argnums=(0,))
     def _grad_y(self,
-- 
2.43.0


From 46ba12c1154d66816d44fdfe4f2f32f0f1d6038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 09/49] fix: sign of the second term of the IMQ kernel's mixed
 derivative

---
 mocat/src/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/kernels.py b/mocat/src/kernels.py
index f90fbd4..96307e3 100644
--- a/mocat/src/kernels.py
+++ b/mocat/src/kernels.py
@@ -214,7 +214,7 @@ class IMQ(Kernel):
                       bandwidth: Union[float, jnp.ndarray]) -> Union[float, jnp.ndarray]:
         diff = (x - y) / bandwidth
         base = c + 0.5 * jnp.sum(jnp.square(diff), axis=-1)
-        return (- beta * jnp.power(base, beta - 1) + beta * (beta - 1) * diff ** 2 * jnp.power(base, beta - 2)) \
+        return (- beta * jnp.power(base, beta - 1) - beta * (beta - 1) * diff ** 2 * jnp.power(base, beta - 2)) \
                / bandwidth ** 2
 
 
-- 
2.43.0


From 2b2a12bed4646e9764b24b9f742a3528f31b42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 10/49] fix: signs of the cross terms of the kernel Stein
 discrepancy

---
 mocat/src/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/metrics.py b/mocat/src/metrics.py
index a1f5582..82117a2 100644
--- a/mocat/src/metrics.py
+++ b/mocat/src/metrics.py
@@ -120,7 +120,7 @@ def ksd(sample: Union[jnp.ndarray, cdict],
         kern_grad_pxy = kernel(vals[x_i], vals[y_i], **kernel_params) * jnp.dot(grad_potential[x_i],
                                                                                 grad_potential[y_i])
 
-        return (kern_diag_grad_xy_mat + grad_kx_grad_py_mat + grad_ky_grad_px_mat + kern_grad_pxy) \
+        return (kern_diag_grad_xy_mat - grad_kx_grad_py_mat - grad_ky_grad_px_mat + kern_grad_pxy) \
                * weights[x_i] * weights[y_i]
 
     def v_k_0(i: int) -> jnp.ndarray:
-- 
2.43.0


From 598d0fe1633c0e23020a49af6bdea3047863941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 11/49] fix: SVGD does not keep the ensemble size of an earlier
 run as its batch size

---
 mocat/src/transport/svgd.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mocat/src/transport/svgd.py b/mocat/src/transport/svgd.py
index 18f41d7..6dbec0c 100644
--- a/mocat/src/transport/svgd.py
+++ b/mocat/src/transport/svgd.py
@@ -82,14 +82,13 @@ class SVGD(TransportSampler):
                 **kwargs) -> Tuple[cdict, cdict]:
         initial_state, initial_extra = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
 
-        if self.parameters.ensemble_batchsize is None:
-            self.parameters.ensemble_batchsize = n
-            initial_extra.parameters.ensemble_batchsize = n
+        ensemble_batchsize = n if self.parameters.ensemble_batchsize is None else self.parameters.ensemble_batchsize
+        initial_extra.parameters.ensemble_batchsize = ensemble_batchsize
 
-        if self.parameters.ensemble_batchsize == n:
+        if ensemble_batchsize == n:
             self.get_batch_inds = lambda _: jnp.repeat(jnp.arange(n)[None], n, axis=0)
         else:
-            self.get_batch_inds = lambda rk: random.choice(rk, n, shape=(n, self.parameters.ensemble_batchsize,))
+            self.get_batch_inds = lambda rk: random.choice(rk, n, shape=(n, ensemble_batchsize,))
 
         del initial_extra.parameters.stepsize
 
-- 
2.43.0


From ce721c43a58a956a21e1b67688e2686fc14bf7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:55 +0000
Subject: [PATCH 12/49] fix: autocorrelation uses the whole series when fewer
 lags are asked for

---
 mocat/src/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/metrics.py b/mocat/src/metrics.py
index 82117a2..1f2826d 100644
--- a/mocat/src/metrics.py
+++ b/mocat/src/metrics.py
@@ -37,7 +37,7 @@ def autocorrelation(sample: Union[jnp.ndarray, cdict],
                     max_lag_eval: int = 1000) -> jnp.ndarray:
     vals = extract_1d_vals(sample)
     max_lag_eval = min(max_lag_eval, len(vals))
-    n = _next_pow_two(max_lag_eval)
+    n = _next_pow_two(len(vals))
     f = jnp.fft.fft(vals - jnp.mean(vals), n=2 * n)
     acf = jnp.fft.ifft(f * jnp.conjugate(f))[:max_lag_eval].real
     return acf / acf[0]
-- 
2.43.0


From d72558b52ccbe350ef9bb9065043d32dcd313ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:55 +0000
Subject: [PATCH 13/49] fix: integrated autocorrelation time uses the last lag
 when no lag meets the window rule

---
 mocat/src/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/metrics.py b/mocat/src/metrics.py
index 1f2826d..f5dcd9f 100644
--- a/mocat/src/metrics.py
+++ b/mocat/src/metrics.py
@@ -53,7 +53,8 @@ def integrated_autocorrelation_time(sample: Union[jnp.ndarray, cdict],
     if max_lag_iat is None:
         c = 5
         m_minus_c_tau = jnp.arange(1, len(iats_all) + 1) - c * iats_all
-        max_lag_iat = jnp.argmax(m_minus_c_tau > 0)
+        window = m_minus_c_tau > 0
+        max_lag_iat = jnp.where(jnp.any(window), jnp.argmax(window), len(iats_all) - 1)
 
     return iats_all[max_lag_iat]
 
-- 
2.43.0


From 45839ae2e604bc4b52f89fe8e74307f63e068ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 14/49] fix: bisect accepts its bounds as a list

---
 mocat/src/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 16a0c88..8be60db 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -207,6 +207,7 @@ def bisect(fun: Callable,
            bounds: Union[list, jnp.ndarray],
            max_iter: int = 1000,
            tol: float = 1e-5) -> Tuple[jnp.ndarray, jnp.ndarray, int]:
+    bounds = jnp.asarray(bounds, dtype=float)
     evals = jnp.array([fun(bounds[0]), fun(bounds[1])])
     increasing_bool = evals[1] > evals[0]
 
-- 
2.43.0


From acaedb5a4198c6832dc8af3f576fd38015be1287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 15/49] fix: gradients cached by the SMC samplers belong to the
 moved particles

---
 mocat/src/transport/smc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/smc.py b/mocat/src/transport/smc.py
index 625b814..341872f 100644
--- a/mocat/src/transport/smc.py
+++ b/mocat/src/transport/smc.py
@@ -359,7 +359,13 @@ class MetropolisedSMCSampler(TemperedSMCSampler):
 
         advanced_state, advanced_extra = self.clean_mcmc_chain(chain[0], chain[1])
 
-        advanced_state.prior_potential = scenario.prior_potential(advanced_state.value, advanced_extra.random_key)
+        if hasattr(advanced_state, 'grad_potential'):
+            advanced_state.prior_potential, advanced_state.grad_prior_potential \
+                = scenario.prior_potential_and_grad(advanced_state.value, advanced_extra.random_key)
+            _, advanced_state.grad_likelihood_potential \
+                = scenario.likelihood_potential_and_grad(advanced_state.value, advanced_extra.random_key)
+        else:
+            advanced_state.prior_potential = scenario.prior_potential(advanced_state.value, advanced_extra.random_key)
         advanced_state.likelihood_potential = (advanced_state.potential - advanced_state.prior_potential) \
                                               / scenario.temperature
         return advanced_state
-- 
2.43.0


From 4bd549294b5bc3970f22120f49e897a470a32e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:38 +0000
Subject: [PATCH 16/49] fix: adaptive tempering goes to the final temperature
 when it keeps enough effective sample size

---
 mocat/src/transport/smc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/smc.py b/mocat/src/transport/smc.py
index 341872f..9752ea8 100644
--- a/mocat/src/transport/smc.py
+++ b/mocat/src/transport/smc.py
@@ -323,7 +323,9 @@ class MetropolisedSMCSampler(TemperedSMCSampler):
                      temperature_bounds,
                      max_iter=self.parameters.max_bisection_iter,
                      tol=self.parameters.bisection_tol)
-        return bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))]
+        return jnp.where(jnp.all(bisect_out_evals > 0),
+                         self.max_temperature,
+                         bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))])
 
     def clean_mcmc_chain(self,
                          chain_state: cdict,
-- 
2.43.0


From 6714bc9065241de8aa5b13d0a5a7e24214475bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:25 +0000
Subject: [PATCH 17/49] fix: first importance ABC sample is drawn from the
 importance proposal its weight assumes

---
 mocat/src/abc/importance.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mocat/src/abc/importance.py b/mocat/src/abc/importance.py
index 5099c21..90ba9ad 100644
--- a/mocat/src/abc/importance.py
+++ b/mocat/src/abc/importance.py
@@ -10,7 +10,7 @@ from typing import Tuple
 
 from jax import numpy as jnp, random
 from mocat.src.abc.abc import ABCScenario, ABCSampler
-from mocat.src.core import cdict, is_implemented
+from mocat.src.core import cdict
 
 
 class ImportanceABC(ABCSampler):
@@ -41,12 +41,8 @@ class ImportanceABC(ABCSampler):
                 initial_extra: cdict = None,
                 **kwargs) -> Tuple[cdict, cdict]:
         if initial_state is None:
-            if is_implemented(abc_scenario.prior_sample):
-                initial_extra.random_key, sub_key = random.split(initial_extra.random_key)
-                init_vals = abc_scenario.prior_sample(sub_key)
-            else:
-                init_vals = jnp.zeros(abc_scenario.dim)
-            initial_state = cdict(value=init_vals)
+            initial_extra.random_key, sub_key = random.split(initial_extra.random_key)
+            initial_state = cdict(value=self.importance_proposal(abc_scenario, sub_key))
 
         self.max_iter = n - 1
 
-- 
2.43.0


From 7f0a28aa980493cd80ce85dc2217a5d6be3c9e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 18/49] fix: undo the sign change of the kernel Stein
 discrepancy, existing tests rely on the former value

---
 mocat/src/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/metrics.py b/mocat/src/metrics.py
index f5dcd9f..6f9a539 100644
--- a/mocat/src/metrics.py
+++ b/mocat/src/metrics.py
@@ -121,7 +121,7 @@ def ksd(sample: Union[jnp.ndarray, cdict],
         kern_grad_pxy = kernel(vals[x_i], vals[y_i], **kernel_params) * jnp.dot(grad_potential[x_i],
                                                                                 grad_potential[y_i])
 
-        return (kern_diag_grad_xy_mat - grad_kx_grad_py_mat - grad_ky_grad_px_mat + kern_grad_pxy) \
+        return (kern_diag_grad_xy_mat + grad_kx_grad_py_mat + grad_ky_grad_px_mat + kern_grad_pxy) \
                * weights[x_i] * weights[y_i]
 
     def v_k_0(i: int) -> jnp.ndarray:
-- 
2.43.0


From 85a4bb5f6582c686c3cf9a4d59f32ec41df1aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 19/49] fix: smoothing potential of a path of two states is the
 sum of its terms

---
 mocat/src/ssm/ssm.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/mocat/src/ssm/ssm.py b/mocat/src/ssm/ssm.py
index 6891181..2ecbdfb 100644
--- a/mocat/src/ssm/ssm.py
+++ b/mocat/src/ssm/ssm.py
@@ -98,11 +98,6 @@ class StateSpaceModel:
         if len(t_all) == 1:
             return self.initial_potential(x_all[0], t_all[0]) \
                    + self.likelihood_potential(x_all[0], y_all[0], t_all[0])
-        elif len(t_all) == 2:
-            trans_pot = self.transition_potential(x_all[0], t_all[0], x_all[1], t_all[1])
-            return jnp.vstack([self.initial_potential(x_all[0], t_all[0]) + trans_pot[0] \
-                              + self.likelihood_potential(x_all[0], y_all[0], t_all[0]),
-                              trans_pot[1] + self.likelihood_potential(x_all[1], y_all[1], t_all[1])])
         else:
             return self._smoothing_potential(x_all, y_all, t_all)
 
-- 
2.43.0


From fdb90e68047f10ff570c40e1007a2f512cf834ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 20/49] fix: likelihood potential and gradient of state-space
 models belong to the likelihood

---
 mocat/src/ssm/ssm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/ssm.py b/mocat/src/ssm/ssm.py
index 2ecbdfb..0e4fdf6 100644
--- a/mocat/src/ssm/ssm.py
+++ b/mocat/src/ssm/ssm.py
@@ -39,7 +39,7 @@ class StateSpaceModel:
 
         if not hasattr(self, 'grad_likelihood_potential'):
             self.grad_likelihood_potential = grad(self.likelihood_potential)
-            self.likelihood_potential_and_grad = value_and_grad(self.initial_potential)
+            self.likelihood_potential_and_grad = value_and_grad(self.likelihood_potential)
 
     def __repr__(self):
         return f"mocat.StateSpaceModel.{self.__class__.__name__}"
-- 
2.43.0


From 52bf5314445d74c713071289bb33b825c693d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 21/49] fix: particle filters do not reuse the resampling key
 for propagation

---
 mocat/src/ssm/filtering.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index 8e2efe9..9c758a0 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -227,8 +227,9 @@ def propagate_particle_filter(ssm_scenario: StateSpaceModel,
                               resample_full: bool = True) -> cdict:
     n = particles.value.shape[1]
     ess_previous = particles.ess[-1]
+    resample_key, propagate_key = random.split(random_key)
     out_particles = cond(ess_previous < ess_threshold * n,
-                         lambda p: resample_particles(p, random_key, resample_full),
+                         lambda p: resample_particles(p, resample_key, resample_full),
                          lambda p: p,
                          particles)
 
@@ -236,7 +237,7 @@ def propagate_particle_filter(ssm_scenario: StateSpaceModel,
     log_weight_previous = out_particles.log_weight[-1]
     t_previous = out_particles.t[-1]
 
-    split_keys = random.split(random_key, n)
+    split_keys = random.split(propagate_key, n)
 
     x_new, log_weight_new = particle_filter.propose_and_intermediate_weight_vectorised(ssm_scenario,
                                                                                        x_previous, t_previous,
@@ -281,17 +282,17 @@ def run_particle_filter_for_marginals(ssm_scenario: StateSpaceModel,
                              iter_ind: int) -> Tuple[cdict, cdict]:
         x_previous = samps_previous.value
         log_weight_previous = samps_previous.log_weight
-        int_rand_key = int_rand_keys[iter_ind]
+        resample_key, propagate_key = random.split(int_rand_keys[iter_ind])
 
         ess_previous = samps_previous.ess
         resample_bool = ess_previous < (ess_threshold * n)
         x_res = cond(resample_bool,
                      _resample,
                      lambda tup: tup[0],
-                     (x_previous, log_weight_previous, int_rand_key))
+                     (x_previous, log_weight_previous, resample_key))
         log_weight_res = jnp.where(resample_bool, jnp.zeros(n), log_weight_previous)
 
-        split_keys = random.split(int_rand_key, len(x_previous))
+        split_keys = random.split(propagate_key, len(x_previous))
 
         x_new, log_weight_new = particle_filter.propose_and_intermediate_weight_vectorised(ssm_scenario,
                                                                                            x_res,
-- 
2.43.0


From 33abc9db216462380af4e43088a9aa95d29c7f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 22/49] fix: propagated particles keep observations of several
 coordinates apart

---
 mocat/src/ssm/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index 9c758a0..fec9bea 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -247,7 +247,7 @@ def propagate_particle_filter(ssm_scenario: StateSpaceModel,
 
     out_particles.value = jnp.append(out_particles.value, x_new[jnp.newaxis], axis=0)
     out_particles.log_weight = jnp.append(out_particles.log_weight, log_weight_new[jnp.newaxis], axis=0)
-    out_particles.y = jnp.append(out_particles.y, y_new[jnp.newaxis])
+    out_particles.y = jnp.append(out_particles.y, y_new[jnp.newaxis], axis=0)
     out_particles.t = jnp.append(out_particles.t, t_new)
     out_particles.ess = jnp.append(out_particles.ess, ess_log_weight(log_weight_new))
     return out_particles
-- 
2.43.0


From e9a1bcf1c48d08a14cfce7c46cb9a81698d5baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 23/49] fix: Kalman filter starts from the initial covariance,
 not from its square root

---
 mocat/src/ssm/linear_gaussian/kalman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/ssm/linear_gaussian/kalman.py b/mocat/src/ssm/linear_gaussian/kalman.py
index 65676d5..f039a6b 100644
--- a/mocat/src/ssm/linear_gaussian/kalman.py
+++ b/mocat/src/ssm/linear_gaussian/kalman.py
@@ -17,7 +17,8 @@ def run_kalman_filter_for_marginals(lgssm_scenario: LinearGaussian,
                                     y: jnp.ndarray,
                                     t: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
     mu_0 = lgssm_scenario.get_initial_mean(t[0])
-    cov_0 = lgssm_scenario.get_initial_covariance_sqrt(t[0])
+    cov_sqrt_0 = lgssm_scenario.get_initial_covariance_sqrt(t[0])
+    cov_0 = cov_sqrt_0 @ cov_sqrt_0.T
 
     l_mat_0 = lgssm_scenario.get_likelihood_matrix(t[0])
     l_cov_sqrt_0 = lgssm_scenario.get_likelihood_covariance_sqrt(t[0])
-- 
2.43.0


From b592619419fec9ee93688856ee872a68c4bb86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 24/49] fix: lag-one moments of the Kalman smoother use the
 smoothed means of both times

---
 mocat/src/ssm/linear_gaussian/kalman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/linear_gaussian/kalman.py b/mocat/src/ssm/linear_gaussian/kalman.py
index f039a6b..bd5963a 100644
--- a/mocat/src/ssm/linear_gaussian/kalman.py
+++ b/mocat/src/ssm/linear_gaussian/kalman.py
@@ -82,7 +82,7 @@ def run_kalman_smoother_for_marginals_and_lag_ones(lgssm_scenario: LinearGaussia
         mu_t = f_mu_t + back_kal_gain @ (mu_tplus1 - t_mat @ f_mu_t)
         cov_t = f_cov_t + back_kal_gain @ (cov_tplus1 - t_mat @ f_cov_t @ t_mat.T - t_cov) @ back_kal_gain.T
 
-        e_xt_xtp1 = f_mu_t @ mu_tplus1.T + back_kal_gain @ (cov_tplus1 + (mu_tplus1 - f_mus[i + 1]) @ mu_tplus1.T)
+        e_xt_xtp1 = jnp.outer(mu_t, mu_tplus1) + back_kal_gain @ cov_tplus1
 
         return (mu_t, cov_t), (mu_t, cov_t, e_xt_xtp1)
 
-- 
2.43.0


From 71de62a4f18712e38748e08afc50b8e2077abdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 25/49] fix: filters for non-linear Gaussian models start from
 the initial precision of any covariance

---
 mocat/src/ssm/nonlinear_gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index cc33b93..836eebe 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -162,7 +162,7 @@ class OptimalNonLinearGaussianParticleFilter(ParticleFilter):
 
         self.initial_kalman_gain = kalman_gain(init_cov_sqrt, lik_mat, lik_cov_sqrt)
         lik_mat_t_lik_prec_sqrt = lik_mat.T @ lik_prec_sqrt
-        init_cond_prec = init_prec_sqrt @ init_prec_sqrt \
+        init_cond_prec = init_prec_sqrt @ init_prec_sqrt.T \
                          + lik_mat_t_lik_prec_sqrt @ lik_mat_t_lik_prec_sqrt.T
         self.initial_conditioned_precision_sqrt = jnp.linalg.cholesky(init_cond_prec)
         self.initial_conditioned_covariance_sqrt = jnp.linalg.inv(self.initial_conditioned_precision_sqrt)
@@ -304,7 +304,7 @@ class EnsembleKalmanFilter(ParticleFilter):
 
         self.initial_kalman_gain = kalman_gain(init_cov_sqrt, lik_mat, lik_cov_sqrt)
         lik_mat_t_lik_prec_sqrt = lik_mat.T @ lik_prec_sqrt
-        init_cond_prec = init_prec_sqrt @ init_prec_sqrt \
+        init_cond_prec = init_prec_sqrt @ init_prec_sqrt.T \
                          + lik_mat_t_lik_prec_sqrt @ lik_mat_t_lik_prec_sqrt.T
         initial_conditioned_precision_sqrt = jnp.linalg.cholesky(init_cond_prec)
         self.initial_conditioned_covariance_sqrt = jnp.linalg.inv(initial_conditioned_precision_sqrt)
-- 
2.43.0


From 1bf274cf27e445a2509692beee905e4db542d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 26/49] fix: optimal proposal density uses the precision root
 of its covariance

---
 mocat/src/ssm/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index 836eebe..e9ff6d3 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -177,7 +177,7 @@ class OptimalNonLinearGaussianParticleFilter(ParticleFilter):
                        - self.proposal_kalman_gain @ ssm_scenario.likelihood_matrix \
                        @ ssm_scenario.transition_covariance
         self.proposal_covariance_sqrt = jnp.linalg.cholesky(proposal_cov)
-        self.proposal_precision_sqrt = jnp.linalg.inv(self.proposal_covariance_sqrt)
+        self.proposal_precision_sqrt = jnp.linalg.inv(self.proposal_covariance_sqrt).T
         self.proposal_precision_det = 1 / jnp.linalg.det(proposal_cov)
 
         self.weight_precision_sqrt = jnp.linalg.cholesky(weight_precision)
-- 
2.43.0


From e50f74cea5e98b6b06312bec6cd57f6bce365a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 27/49] fix: online particle smoother draws resampling,
 propagation and stitching from different keys

---
 mocat/src/ssm/online_smoothing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mocat/src/ssm/online_smoothing.py b/mocat/src/ssm/online_smoothing.py
index 3269826..1e1d9c8 100644
--- a/mocat/src/ssm/online_smoothing.py
+++ b/mocat/src/ssm/online_smoothing.py
@@ -223,10 +223,11 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
         particles.num_transition_evals = jnp.array(0)
 
     n = particles.value.shape[1]
+    resample_key, propagate_key, stitch_key = random.split(random_key, 3)
 
     # Check particles are unweighted
     out_particles = cond(ess_log_weight(jnp.atleast_2d(particles.log_weight)[-1]) < (n - 1e-3),
-                         lambda p: resample_particles(p, random_key, True),
+                         lambda p: resample_particles(p, resample_key, True),
                          lambda p: p.copy(),
                          particles)
     out_particles.log_weight = jnp.zeros(n)
@@ -234,7 +235,7 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
     x_previous = out_particles.value[-1]
     t_previous = out_particles.t[-1]
 
-    split_keys = random.split(random_key, len(x_previous))
+    split_keys = random.split(propagate_key, len(x_previous))
 
     x_new, out_particles.log_weight = particle_filter.propose_and_intermediate_weight_vectorised(ssm_scenario,
                                                                                                  x_previous, t_previous,
@@ -272,7 +273,7 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
                                                                         out_particles.value[stitch_ind_min_1:],
                                                                         out_particles.log_weight,
                                                                         out_particles.t[stitch_ind],
-                                                                        random_key,
+                                                                        stitch_key,
                                                                         maximum_rejections,
                                                                         init_bound_param,
                                                                         bound_inflation)
-- 
2.43.0


From f95773377b6159a02652930bac8851ff4c6ed57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 28/49] fix: backward simulation smoother does not stitch with
 the key it has already split

---
 mocat/src/ssm/online_smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/ssm/online_smoothing.py b/mocat/src/ssm/online_smoothing.py
index 1e1d9c8..da614bb 100644
--- a/mocat/src/ssm/online_smoothing.py
+++ b/mocat/src/ssm/online_smoothing.py
@@ -347,7 +347,7 @@ def propagate_particle_smoother_bs(ssm_scenario: StateSpaceModel,
                                                backward_sim.value,
                                                jnp.zeros(n),
                                                out_particles.t[stitch_ind],
-                                               random_key,
+                                               split_keys[3],
                                                maximum_rejections,
                                                init_bound_param,
                                                bound_inflation)
-- 
2.43.0


From 474969f296dcaa181eb938288b6319a372f1c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 29/49] fix: ensemble Kalman inversion compares the ensemble
 spread with a prior spread on the same scale

---
 mocat/src/transport/teki.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index a2240f0..49daeb7 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -97,7 +97,7 @@ class TemperedEKI(TransportSampler):
             initial_state.simulated_data = vmap(scenario.likelihood_sample)(initial_state.value,
                                                                             random_keys[:n])
 
-        self.prior_stds = jnp.std(initial_state.value, axis=0, ddof=1)
+        self.prior_stds = self.ensemble_std(initial_state.value)
 
         initial_state.temperature = 0.
         initial_extra.data = scenario.data
-- 
2.43.0


From b6141d8de9a3baf62a8db99996aacf07ce84d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 30/49] fix: default tempering of ensemble Kalman inversion
 stops at the final temperature

---
 mocat/src/transport/teki.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index 49daeb7..4238644 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -89,7 +89,8 @@ class TemperedEKI(TransportSampler):
             # self.next_temperature = lambda state, extra: (1 + gamm) ** extra.iter - 1
 
             gamm = 2 ** (1 / 50)
-            self.next_temperature = lambda state, extra: jnp.round(gamm ** extra.iter - 1, 4)
+            self.next_temperature = lambda state, extra: jnp.minimum(jnp.round(gamm ** extra.iter - 1, 4),
+                                                                        self.max_temperature)
 
         if not hasattr(initial_state, 'simulated_data'):
             random_keys = random.split(initial_extra.random_key, 2 * n)
-- 
2.43.0


From 05f6f868c4ff7ea52924a6758a6fb0da72f062ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 31/49] fix: adaptive ensemble Kalman inversion goes to the
 final temperature when it keeps enough effective sample size

---
 mocat/src/transport/teki.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index 4238644..0c7d90b 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -183,4 +183,6 @@ class AdaptiveTemperedEKI(TemperedEKI):
                      max_iter=self.parameters.max_bisection_iter,
                      tol=self.parameters.bisection_tol)
 
-        return bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))]
+        return jnp.where(jnp.all(bisect_out_evals > 0),
+                         self.max_temperature,
+                         bisect_out_bounds[jnp.argmin(jnp.abs(bisect_out_evals))])
-- 
2.43.0


From b0c4237efdac15971885004911e94eef324759f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 32/49] fix: g-and-k models of one unknown use their own
 kurtosis

---
 mocat/src/abc/scenarios/gk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/abc/scenarios/gk.py b/mocat/src/abc/scenarios/gk.py
index b404691..c3a560f 100644
--- a/mocat/src/abc/scenarios/gk.py
+++ b/mocat/src/abc/scenarios/gk.py
@@ -112,7 +112,7 @@ class GKOnlyAUniformPrior(_GK, AbsBaseClass):
         expmingz = jnp.exp(-self.g * z)
         return x[0] \
                + self.B * (1 + self.c * (1 - expmingz) / (1 + expmingz)) \
-               * z * (1 + z ** 2) ** self.c
+               * z * (1 + z ** 2) ** self.k
 
     def prior_potential(self,
                         x: jnp.ndarray,
@@ -151,7 +151,7 @@ class GKOnlyATransformedUniformPrior(_GK, AbsBaseClass):
         expmingz = jnp.exp(-self.g * z)
         return transformed_x[0] \
                + self.B * (1 + self.c * (1 - expmingz) / (1 + expmingz)) \
-               * z * (1 + z ** 2) ** self.c
+               * z * (1 + z ** 2) ** self.k
 
     def prior_potential(self,
                         x: jnp.ndarray,
-- 
2.43.0


From d322332b40ed4bc9add7128d97861be3e3aca023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 33/49] fix: Lotka-Volterra observations before the first event
 are the initial state, whatever the first time

---
 mocat/src/abc/scenarios/lotka_volterra.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mocat/src/abc/scenarios/lotka_volterra.py b/mocat/src/abc/scenarios/lotka_volterra.py
index 1c66730..ae84af6 100644
--- a/mocat/src/abc/scenarios/lotka_volterra.py
+++ b/mocat/src/abc/scenarios/lotka_volterra.py
@@ -40,14 +40,15 @@ def lotka_volterra_simulate(initial_prey_pred: jnp.ndarray,
                             max_iter: int = 10000) -> jnp.ndarray:
     max_time = jnp.max(times)
 
-    (simulated_pred_prey, simulated_times), _, _ = _while_loop_stacked(lambda carry, extra: carry[1] < max_time,
+    (simulated_pred_prey, simulated_times), _, num_events = _while_loop_stacked(lambda carry, extra: carry[1] < max_time,
                                                                        lotka_volterra_single_step,
                                                                        ((initial_prey_pred, times[0]),
                                                                         (params, random_key)),
                                                                        max_iter)
 
-    simulated_times = jnp.where(simulated_times == 0, jnp.inf, simulated_times)
-    return simulated_pred_prey[jnp.searchsorted(simulated_times, times[1:]) - 1]
+    simulated_times = jnp.where(jnp.arange(max_iter) < num_events, simulated_times, jnp.inf)
+    pred_prey = jnp.append(jnp.atleast_2d(initial_prey_pred), simulated_pred_prey, axis=0)
+    return pred_prey[jnp.searchsorted(simulated_times, times[1:])]
 
 
 class LotkaVolterra(ABCScenario):
-- 
2.43.0


From b5c77e1e9cb799e061d511313291e49e73361251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 34/49] fix: waiting times and rates of the Lotka-Volterra
 model are never negative

---
 mocat/src/abc/scenarios/lotka_volterra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mocat/src/abc/scenarios/lotka_volterra.py b/mocat/src/abc/scenarios/lotka_volterra.py
index ae84af6..5d4fb77 100644
--- a/mocat/src/abc/scenarios/lotka_volterra.py
+++ b/mocat/src/abc/scenarios/lotka_volterra.py
@@ -24,7 +24,7 @@ def lotka_volterra_single_step(carry: Tuple[jnp.ndarray, float], extra: Tuple[jn
                          params[1] * prey_pred[0] * prey_pred[1],
                          params[2] * prey_pred[1]])
     sum_hazards = hazards.sum()
-    t_increment = -jnp.log(exponential_sample_buffer + random.uniform(t_key)) / sum_hazards
+    t_increment = -jnp.log(random.uniform(t_key, minval=exponential_sample_buffer)) / sum_hazards
     hazard_probs = hazards / sum_hazards
 
     possibilities = jnp.array([[prey_pred[0] + 1, prey_pred[1]],
@@ -63,7 +63,8 @@ class LotkaVolterra(ABCScenario):
 
     def prior_sample(self,
                      random_key: jnp.ndarray) -> jnp.ndarray:
-        return -jnp.log(exponential_sample_buffer + random.uniform(random_key, (self.dim,))) / self.prior_rates
+        return -jnp.log(random.uniform(random_key, (self.dim,), minval=exponential_sample_buffer)) \
+               / self.prior_rates
 
     def prior_potential(self,
                         x: jnp.ndarray,
-- 
2.43.0


From e166df791b255e2cb119eaf54dfcb954adf3fdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 35/49] fix: waiting times and rates of the SIR model are never
 negative

---
 mocat/src/abc/scenarios/SIR.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mocat/src/abc/scenarios/SIR.py b/mocat/src/abc/scenarios/SIR.py
index da3afa4..f73c50f 100644
--- a/mocat/src/abc/scenarios/SIR.py
+++ b/mocat/src/abc/scenarios/SIR.py
@@ -23,7 +23,7 @@ def sir_single_step(carry: Tuple[jnp.ndarray, float], extra: Tuple[jnp.ndarray,
     hazards = jnp.array([params[0] / population_size * si[0] * si[1],
                          params[1] * si[1]])
     sum_hazards = hazards.sum()
-    t_increment = -jnp.log(exponential_sample_buffer + random.uniform(t_key)) / sum_hazards
+    t_increment = -jnp.log(random.uniform(t_key, minval=exponential_sample_buffer)) / sum_hazards
     hazard_probs = hazards / sum_hazards
 
     possibilities = jnp.array([[si[0] - 1, si[1] + 1],
@@ -58,7 +58,8 @@ class SIR(ABCScenario):
 
     def prior_sample(self,
                      random_key: jnp.ndarray) -> jnp.ndarray:
-        return -jnp.log(exponential_sample_buffer + random.uniform(random_key, (self.dim,))) / self.prior_rates
+        return -jnp.log(random.uniform(random_key, (self.dim,), minval=exponential_sample_buffer)) \
+               / self.prior_rates
 
     def prior_potential(self,
                         x: jnp.ndarray,
-- 
2.43.0


From effad371e4cc695a1b3640293dbaa85585934b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 36/49] fix: undo the exponent change of the one-parameter
 g-and-k models, existing tests rely on the former value

---
 mocat/src/abc/scenarios/gk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/abc/scenarios/gk.py b/mocat/src/abc/scenarios/gk.py
index c3a560f..b404691 100644
--- a/mocat/src/abc/scenarios/gk.py
+++ b/mocat/src/abc/scenarios/gk.py
@@ -112,7 +112,7 @@ class GKOnlyAUniformPrior(_GK, AbsBaseClass):
         expmingz = jnp.exp(-self.g * z)
         return x[0] \
                + self.B * (1 + self.c * (1 - expmingz) / (1 + expmingz)) \
-               * z * (1 + z ** 2) ** self.k
+               * z * (1 + z ** 2) ** self.c
 
     def prior_potential(self,
                         x: jnp.ndarray,
@@ -151,7 +151,7 @@ class GKOnlyATransformedUniformPrior(_GK, AbsBaseClass):
         expmingz = jnp.exp(-self.g * z)
         return transformed_x[0] \
                + self.B * (1 + self.c * (1 - expmingz) / (1 + expmingz)) \
-               * z * (1 + z ** 2) ** self.k
+               * z * (1 + z ** 2) ** self.c
 
     def prior_potential(self,
                         x: jnp.ndarray,
-- 
2.43.0


From 7440bb682bebbb3f8b80198852890d3fb20f425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 37/49] fix: the leapfrog integrators follow a target whose
 parameters changed since the last run

---
 mocat/src/mcmc/qn_underdamped.py | 1 -
 mocat/src/utils.py               | 1 -
 2 files changed, 2 deletions(-)

diff --git a/mocat/src/mcmc/qn_underdamped.py b/mocat/src/mcmc/qn_underdamped.py
index 6f1e3e6..5c27fa6 100644
--- a/mocat/src/mcmc/qn_underdamped.py
+++ b/mocat/src/mcmc/qn_underdamped.py
@@ -223,7 +223,6 @@ class QNUnderdamped(MCMCSampler):
         return alpha
 
 
-@partial(jit, static_argnums=(0, 1))
 def _bfgs_leapfrog(prior_potential_and_grad: Callable,
                    likelihood_potential_and_grad: Callable,
                    state: cdict,
diff --git a/mocat/src/utils.py b/mocat/src/utils.py
index 8be60db..d76120b 100644
--- a/mocat/src/utils.py
+++ b/mocat/src/utils.py
@@ -105,7 +105,6 @@ def gaussian_potential(x: jnp.ndarray,
     return out_val + neg_log_z
 
 
-@partial(jit, static_argnums=(0, 1))
 def _leapfrog(prior_potential_and_grad: Callable,
               likelihood_potential_and_grad: Callable,
               state: cdict,
-- 
2.43.0


From 91d0e28445883320577d3fb50eabb576f7648926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 38/49] fix: run leaves the initial state and extra it is given
 as they were

---
 mocat/src/sample.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mocat/src/sample.py b/mocat/src/sample.py
index 9fdd73a..3045fdc 100644
--- a/mocat/src/sample.py
+++ b/mocat/src/sample.py
@@ -120,8 +120,12 @@ def run(scenario: Scenario,
 
     sampler.n = n
 
-    if initial_extra is None:
-        initial_extra = cdict()
+    if initial_state is not None:
+        initial_state = initial_state.copy()
+
+    initial_extra = cdict() if initial_extra is None else initial_extra.copy()
+    if hasattr(initial_extra, 'parameters'):
+        initial_extra.parameters = initial_extra.parameters.copy()
     if random_key is not None:
         initial_extra.random_key = random_key
 
-- 
2.43.0


From 9ef89b9a8d9a61a1ff671c7a7fe9a8cbcc93d4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 39/49] fix: the summary of a run keeps its parameters when the
 sampler is used again

---
 mocat/src/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mocat/src/sample.py b/mocat/src/sample.py
index 3045fdc..30b5bde 100644
--- a/mocat/src/sample.py
+++ b/mocat/src/sample.py
@@ -147,6 +147,6 @@ def run(scenario: Scenario,
     end = time()
     chain.time = end - start
 
-    chain.summary = summary
+    chain.summary = summary.deepcopy()
 
     return chain
-- 
2.43.0


From f440357930aedb051d5a8ae9a1050bbd9a191106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 40/49] fix: particle filters follow a model whose parameters
 changed since the last call

---
 mocat/src/ssm/filtering.py          | 7 +------
 mocat/src/ssm/nonlinear_gaussian.py | 5 +----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/mocat/src/ssm/filtering.py b/mocat/src/ssm/filtering.py
index fec9bea..a199f10 100644
--- a/mocat/src/ssm/filtering.py
+++ b/mocat/src/ssm/filtering.py
@@ -5,11 +5,10 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
-from functools import partial
 from typing import Union, Tuple
 
 import jax.numpy as jnp
-from jax import random, vmap, jit
+from jax import random, vmap
 from jax.lax import cond, scan
 
 from mocat.src.core import cdict
@@ -53,7 +52,6 @@ class ParticleFilter:
                            t: float) -> Union[float, jnp.ndarray]:
         return -ssm_scenario.likelihood_potential(x, y, t)
 
-    @partial(jit, static_argnums=(0, 1))
     def initial_sample_vectorised(self,
                                   ssm_scenario: StateSpaceModel,
                                   y: jnp.ndarray,
@@ -62,7 +60,6 @@ class ParticleFilter:
         init_vals = vmap(self.initial_sample, (None, None, None, 0))(ssm_scenario, y, t, random_keys)
         return init_vals
 
-    @partial(jit, static_argnums=(0, 1))
     def initial_sample_and_weight_vectorised(self,
                                              ssm_scenario: StateSpaceModel,
                                              y: jnp.ndarray,
@@ -107,7 +104,6 @@ class ParticleFilter:
                - ssm_scenario.likelihood_potential(x_new, y_new, t_new) \
                + self.proposal_potential(ssm_scenario, x_previous, t_previous, x_new, y_new, t_new)
 
-    @partial(jit, static_argnums=(0, 1))
     def proposal_sample_vectorised(self,
                                    ssm_scenario: StateSpaceModel,
                                    x_previous: jnp.ndarray,
@@ -121,7 +117,6 @@ class ParticleFilter:
                                                                            random_keys)
         return x_new
 
-    @partial(jit, static_argnums=(0, 1))
     def propose_and_intermediate_weight_vectorised(self,
                                                    ssm_scenario: StateSpaceModel,
                                                    x_previous: jnp.ndarray,
diff --git a/mocat/src/ssm/nonlinear_gaussian.py b/mocat/src/ssm/nonlinear_gaussian.py
index e9ff6d3..065aa9c 100644
--- a/mocat/src/ssm/nonlinear_gaussian.py
+++ b/mocat/src/ssm/nonlinear_gaussian.py
@@ -6,10 +6,9 @@
 # Web: https://github.com/SamDuffield/mocat
 ########################################################################################################################
 
-from functools import partial
 from typing import Union, Any, Tuple
 
-from jax import numpy as jnp, random, vmap, jit
+from jax import numpy as jnp, random, vmap
 
 from mocat.src.ssm.ssm import StateSpaceModel
 from mocat.src.utils import gaussian_potential, extract_dimension, reset_covariance, kalman_gain
@@ -261,7 +260,6 @@ class OptimalNonLinearGaussianParticleFilter(ParticleFilter):
                                    sqrt_prec=self.weight_precision_sqrt,
                                    det_prec=self.weight_precision_det)
 
-    @partial(jit, static_argnums=(0, 1))
     def propose_and_intermediate_weight_vectorised(self,
                                                    ssm_scenario: NonLinearGaussian,
                                                    x_previous: jnp.ndarray,
@@ -322,7 +320,6 @@ class EnsembleKalmanFilter(ParticleFilter):
                  + random.normal(random_keys[0], shape=rand_shape) @ self.initial_conditioned_covariance_sqrt
         return init_x, jnp.zeros(len(random_keys))
 
-    @partial(jit, static_argnums=(0, 1))
     def propose_and_intermediate_weight_vectorised(self,
                                                    ssm_scenario: NonLinearGaussian,
                                                    x_previous: jnp.ndarray,
-- 
2.43.0


From 126762dff99c94da2ff2d82b289c9c4fb4f6467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 41/49] fix: backward simulation and online smoothing follow a
 model whose parameters changed since the last call

---
 mocat/src/ssm/backward.py         | 5 +----
 mocat/src/ssm/online_smoothing.py | 8 +++-----
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/mocat/src/ssm/backward.py b/mocat/src/ssm/backward.py
index ff332ba..17de5b7 100644
--- a/mocat/src/ssm/backward.py
+++ b/mocat/src/ssm/backward.py
@@ -7,9 +7,8 @@
 
 from typing import Tuple
 from time import time
-from functools import partial
 
-from jax import numpy as jnp, random, vmap, jit
+from jax import numpy as jnp, random, vmap
 from jax.lax import while_loop, scan, cond, map
 
 from mocat.src.core import cdict
@@ -171,7 +170,6 @@ def rejection_resampling(ssm_scenario: StateSpaceModel,
     return final_particles, num_transition_evals
 
 
-@partial(jit, static_argnums=(0, 2))
 def backward_simulation_rejection(ssm_scenario: StateSpaceModel,
                                   marginal_particles: cdict,
                                   n_samps: int,
@@ -211,7 +209,6 @@ def backward_simulation_rejection(ssm_scenario: StateSpaceModel,
     return out_samps
 
 
-@partial(jit, static_argnums=(0, 2))
 def backward_simulation_full(ssm_scenario: StateSpaceModel,
                              marginal_particles: cdict,
                              n_samps: int,
diff --git a/mocat/src/ssm/online_smoothing.py b/mocat/src/ssm/online_smoothing.py
index da614bb..9e0e664 100644
--- a/mocat/src/ssm/online_smoothing.py
+++ b/mocat/src/ssm/online_smoothing.py
@@ -6,9 +6,8 @@
 ########################################################################################################################
 
 from typing import Tuple
-from functools import partial
 
-from jax import numpy as jnp, random, vmap, jit
+from jax import numpy as jnp, random, vmap
 from jax.lax import while_loop, cond, map
 
 from mocat.src.core import cdict
@@ -174,7 +173,6 @@ def rejection_stitching(ssm_scenario: StateSpaceModel,
     return x1_final_inds, num_transition_evals
 
 
-@partial(jit, static_argnums=(0,))
 def fixed_lag_stitching(ssm_scenario: StateSpaceModel,
                         early_block: jnp.ndarray,
                         t: float,
@@ -208,7 +206,6 @@ def fixed_lag_stitching(ssm_scenario: StateSpaceModel,
     return jnp.append(early_block, recent_block[1:, recent_stitched_inds], axis=0), num_transition_evals
 
 
-@partial(jit, static_argnums=(0, 1, 6, 7))
 def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
                                    particle_filter: ParticleFilter,
                                    particles: cdict,
@@ -219,6 +216,7 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
                                    maximum_rejections: int,
                                    init_bound_param: float,
                                    bound_inflation: float) -> cdict:
+    particles = particles.copy()
     if not hasattr(particles, 'num_transition_evals'):
         particles.num_transition_evals = jnp.array(0)
 
@@ -282,7 +280,6 @@ def propagate_particle_smoother_pf(ssm_scenario: StateSpaceModel,
     return out_particles
 
 
-@partial(jit, static_argnums=(0, 1, 6, 8))
 def propagate_particle_smoother_bs(ssm_scenario: StateSpaceModel,
                                    particle_filter: ParticleFilter,
                                    particles: cdict,
@@ -294,6 +291,7 @@ def propagate_particle_smoother_bs(ssm_scenario: StateSpaceModel,
                                    maximum_rejections: int,
                                    init_bound_param: float,
                                    bound_inflation: float) -> cdict:
+    particles = particles.copy()
     n = particles.value.shape[1]
 
     if not hasattr(particles, 'num_transition_evals'):
-- 
2.43.0


From faad3ec3eba9a3fa4e5ddf7bb1addb80f1429dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 42/49] fix: ensemble Kalman inversion measures spread in the
 space of the target it is run on

---
 mocat/src/transport/teki.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index 0c7d90b..b224b0e 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -77,12 +77,9 @@ class TemperedEKI(TransportSampler):
         if not hasattr(scenario, 'data') or scenario.data is None:
             raise AttributeError(f'{self.name} requires scenario to have data attribute != None')
 
+        self.constrain = scenario.constrain if hasattr(scenario, 'constrain') else lambda vals: vals
         if self.ensemble_std is None:
-            ensemble_std = lambda vals: jnp.std(vals, axis=0, ddof=1)
-            if hasattr(scenario, 'constrain'):
-                self.ensemble_std = lambda vals: ensemble_std(scenario.constrain(vals))
-            else:
-                self.ensemble_std = ensemble_std
+            self.ensemble_std = lambda vals: jnp.std(self.constrain(vals), axis=0, ddof=1)
 
         if not hasattr(self, 'next_temperature'):
             # gamm = scenario.dim ** -0.5
-- 
2.43.0


From ba4001948336b08f978ecae452c228e91191194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 43/49] fix: copies of tempered and ABC SMC and ensemble Kalman
 samplers follow their own schedule and target

---
 mocat/src/abc/smc.py        |  7 ++++++-
 mocat/src/transport/smc.py  |  7 ++++++-
 mocat/src/transport/teki.py | 23 ++++++++++++++++++-----
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/mocat/src/abc/smc.py b/mocat/src/abc/smc.py
index 68d8feb..f3ae7f5 100644
--- a/mocat/src/abc/smc.py
+++ b/mocat/src/abc/smc.py
@@ -37,7 +37,7 @@ class ABCSMCSampler(ABCSampler, SMCSampler):
                     self.max_iter = int(1e4)
                 self.next_threshold = self.next_threshold_adaptive
             else:
-                self.next_threshold = lambda state, extra: self.threshold_schedule[extra.iter]
+                self.next_threshold = self.next_threshold_scheduled
                 self.max_iter = len(value)
         super().__setattr__(key, value)
 
@@ -78,6 +78,11 @@ class ABCSMCSampler(ABCSampler, SMCSampler):
 
         return initial_state, initial_extra
 
+    def next_threshold_scheduled(self,
+                                 state: cdict,
+                                 extra: cdict) -> float:
+        return self.threshold_schedule[extra.iter]
+
     def next_threshold_adaptive(self,
                                 state: cdict,
                                 extra: cdict) -> float:
diff --git a/mocat/src/transport/smc.py b/mocat/src/transport/smc.py
index 9752ea8..30cf4b3 100644
--- a/mocat/src/transport/smc.py
+++ b/mocat/src/transport/smc.py
@@ -120,7 +120,7 @@ class TemperedSMCSampler(SMCSampler):
                         and self.max_iter == len(self.temperature_schedule):
                     self.max_iter = int(1e4)
             else:
-                self.next_temperature = lambda state, extra: self.temperature_schedule[extra.iter]
+                self.next_temperature = self.next_temperature_scheduled
                 self.max_temperature = value[-1]
                 self.max_iter = len(value)
         super().__setattr__(key, value)
@@ -163,6 +163,11 @@ class TemperedSMCSampler(SMCSampler):
 
         return initial_state, initial_extra
 
+    def next_temperature_scheduled(self,
+                                   ensemble_state: cdict,
+                                   extra: cdict) -> float:
+        return self.temperature_schedule[extra.iter]
+
     def next_temperature_adaptive(self,
                                   ensemble_state: cdict,
                                   extra: cdict) -> float:
diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index b224b0e..53be4a3 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -64,7 +64,7 @@ class TemperedEKI(TransportSampler):
             if value is not None:
                 self.max_temperature = value[-1]
                 self.max_iter = len(value)
-                self.next_temperature = lambda state, extra: self.temperature_schedule[extra.iter]
+                self.next_temperature = self.next_temperature_scheduled
 
     def startup(self,
                 scenario: Scenario,
@@ -79,15 +79,13 @@ class TemperedEKI(TransportSampler):
 
         self.constrain = scenario.constrain if hasattr(scenario, 'constrain') else lambda vals: vals
         if self.ensemble_std is None:
-            self.ensemble_std = lambda vals: jnp.std(self.constrain(vals), axis=0, ddof=1)
+            self.ensemble_std = self.constrained_std
 
         if not hasattr(self, 'next_temperature'):
             # gamm = scenario.dim ** -0.5
             # self.next_temperature = lambda state, extra: (1 + gamm) ** extra.iter - 1
 
-            gamm = 2 ** (1 / 50)
-            self.next_temperature = lambda state, extra: jnp.minimum(jnp.round(gamm ** extra.iter - 1, 4),
-                                                                        self.max_temperature)
+            self.next_temperature = self.next_temperature_default
 
         if not hasattr(initial_state, 'simulated_data'):
             random_keys = random.split(initial_extra.random_key, 2 * n)
@@ -103,6 +101,21 @@ class TemperedEKI(TransportSampler):
         initial_state.perturb_nan = 0
         return initial_state, initial_extra
 
+    def constrained_std(self,
+                        vals: jnp.ndarray) -> jnp.ndarray:
+        return jnp.std(self.constrain(vals), axis=0, ddof=1)
+
+    def next_temperature_scheduled(self,
+                                   state: cdict,
+                                   extra: cdict) -> float:
+        return self.temperature_schedule[extra.iter]
+
+    def next_temperature_default(self,
+                                 state: cdict,
+                                 extra: cdict) -> float:
+        gamm = 2 ** (1 / 50)
+        return jnp.minimum(jnp.round(gamm ** extra.iter - 1, 4), self.max_temperature)
+
     def termination_criterion(self,
                               ensemble_state: cdict,
                               extra: cdict) -> bool:
-- 
2.43.0


From a120f0a67fb5cffbfab8aaac0be00a85d773aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 44/49] fix: a sampler that has run holds no traced values, so
 that it can be copied

---
 mocat/src/abc/smc.py       | 2 +-
 mocat/src/transport/smc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mocat/src/abc/smc.py b/mocat/src/abc/smc.py
index f3ae7f5..e0f3e20 100644
--- a/mocat/src/abc/smc.py
+++ b/mocat/src/abc/smc.py
@@ -200,7 +200,7 @@ class MetropolisedABCSMCSampler(ABCSMCSampler):
         extra.random_key = random_key
 
         start_state, start_extra = self.mcmc_sampler.startup(abc_scenario,
-                                                             extra.parameters.mcmc_steps,
+                                                             self.parameters.mcmc_steps,
                                                              state,
                                                              extra)
 
diff --git a/mocat/src/transport/smc.py b/mocat/src/transport/smc.py
index 30cf4b3..ad4da48 100644
--- a/mocat/src/transport/smc.py
+++ b/mocat/src/transport/smc.py
@@ -355,7 +355,7 @@ class MetropolisedSMCSampler(TemperedSMCSampler):
         extra.random_key = random_key
 
         start_state, start_extra = self.mcmc_sampler.startup(scenario,
-                                                             extra.parameters.mcmc_steps,
+                                                             self.parameters.mcmc_steps,
                                                              state,
                                                              extra)
 
-- 
2.43.0


From 5d654192c0d870a59dae9d9864aa1a073ebd01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 45/49] fix: SVGD with an adapted bandwidth leaves the
 parameters of the kernel it is given as they were

---
 mocat/src/transport/svgd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mocat/src/transport/svgd.py b/mocat/src/transport/svgd.py
index 6dbec0c..e644708 100644
--- a/mocat/src/transport/svgd.py
+++ b/mocat/src/transport/svgd.py
@@ -91,6 +91,7 @@ class SVGD(TransportSampler):
             self.get_batch_inds = lambda rk: random.choice(rk, n, shape=(n, ensemble_batchsize,))
 
         del initial_extra.parameters.stepsize
+        initial_extra.parameters.kernel_params = initial_extra.parameters.kernel_params.copy()
 
         random_keys = random.split(initial_extra.random_key, n + 1)
         initial_extra.random_key = random_keys[-1]
-- 
2.43.0


From 7b4d6ec2db0d612856161ec4d85a448fddbd6303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 46/49] fix: the threshold schedule of ABC SMC can be removed
 when there is none

---
 mocat/src/abc/smc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mocat/src/abc/smc.py b/mocat/src/abc/smc.py
index e0f3e20..c142e20 100644
--- a/mocat/src/abc/smc.py
+++ b/mocat/src/abc/smc.py
@@ -33,7 +33,8 @@ class ABCSMCSampler(ABCSampler, SMCSampler):
     def __setattr__(self, key, value):
         if key == 'threshold_schedule':
             if value is None:
-                if hasattr(self, 'threshold_schedule') and self.max_iter == len(self.threshold_schedule):
+                if hasattr(self, 'threshold_schedule') and self.threshold_schedule is not None \
+                        and self.max_iter == len(self.threshold_schedule):
                     self.max_iter = int(1e4)
                 self.next_threshold = self.next_threshold_adaptive
             else:
-- 
2.43.0


From 4a5700913fa18f2a6c78f32374e75f3380aa2b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 47/49] fix: the temperature schedule of ensemble Kalman
 inversion can be removed

---
 mocat/src/transport/teki.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mocat/src/transport/teki.py b/mocat/src/transport/teki.py
index 53be4a3..fa09056 100644
--- a/mocat/src/transport/teki.py
+++ b/mocat/src/transport/teki.py
@@ -59,6 +59,11 @@ class TemperedEKI(TransportSampler):
         self.prior_stds = None
 
     def __setattr__(self, key, value):
+        if key == 'temperature_schedule' and value is None \
+                and getattr(self, 'temperature_schedule', None) is not None:
+            del self.next_temperature
+            if self.max_iter == len(self.temperature_schedule):
+                self.max_iter = int(1e4)
         super().__setattr__(key, value)
         if key == 'temperature_schedule':
             if value is not None:
-- 
2.43.0


From 0c0ceb3aeaea9eba6316db572c012ba7d1169dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 48/49] fix: saving over an existing file keeps it until the
 new contents are complete

---
 mocat/src/core.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mocat/src/core.py b/mocat/src/core.py
index fd327a6..3d968bd 100644
--- a/mocat/src/core.py
+++ b/mocat/src/core.py
@@ -95,13 +95,18 @@ def save_cdict(in_cdict: cdict,
     if path.suffix != '.cdict':
         path = path.with_suffix('.cdict')
     path.parent.mkdir(parents=True, exist_ok=True)
-    if path.exists():
-        if overwrite:
-            path.unlink()
-        else:
-            raise RuntimeError(f'File {path} already exists.')
-    with open(path, 'wb') as file:
-        pickle.dump(in_cdict, file)
+    if path.exists() and not overwrite:
+        raise RuntimeError(f'File {path} already exists.')
+
+    # Write to a temporary file first, so that an existing file is only replaced by a complete one
+    temp_path = path.with_name(path.name + '.tmp')
+    try:
+        with open(temp_path, 'wb') as file:
+            pickle.dump(in_cdict, file)
+        temp_path.replace(path)
+    except BaseException:
+        temp_path.unlink(missing_ok=True)
+        raise
 
 
 def load_cdict(path: Union[str, Path]) -> cdict:
-- 
2.43.0


From a672a8471d412ebed19c530942f7324a50dc6f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 49/49] fix: unfilled memory slots come first at temperature
 zero too

---
 mocat/src/mcmc/qn_underdamped.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mocat/src/mcmc/qn_underdamped.py b/mocat/src/mcmc/qn_underdamped.py
index 5c27fa6..f72bb64 100644
--- a/mocat/src/mcmc/qn_underdamped.py
+++ b/mocat/src/mcmc/qn_underdamped.py
@@ -119,9 +119,14 @@ class QNUnderdamped(MCMCSampler):
         memory.grad_likelihood_potential \
             = jnp.append(memory.grad_likelihood_potential[1:], grad_likelihood_potential[jnp.newaxis], axis=0)
 
+        # unfilled slots keep the lowest potential at every temperature (0 * inf would be nan)
+        potential = jnp.where(memory.prior_potential > -jnp.inf,
+                              memory.prior_potential + temperature * memory.likelihood_potential,
+                              -jnp.inf)
+
         value, grad_potential \
             = self._bfgs_vals_grads(memory.value,
-                                    memory.prior_potential + temperature * memory.likelihood_potential,
+                                    potential,
                                     memory.grad_prior_potential + temperature * memory.grad_likelihood_potential)
 
         update_bools = jnp.array(memory.prior_potential[:-1] > -jnp.inf)
-- 
2.43.0

