From 9b73593e562be3a5947096bac71366a0f32176e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 01/41] fix: include the measurement factor in the cSMC
 backward-sampling weights

The measurement density p(v_k | u_{k-1}, v_{k-1}) depends on u_{k-1}, so the backward weights of u_{k-1} given u_k must
include it. Without it the kernel with backward=True does not leave p(u | v) invariant.
---
 fbs/samplers/csmc/csmc.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fbs/samplers/csmc/csmc.py b/fbs/samplers/csmc/csmc.py
index 9b2bb1f..d1d6605 100644
--- a/fbs/samplers/csmc/csmc.py
+++ b/fbs/samplers/csmc/csmc.py
@@ -71,7 +71,8 @@ def csmc_kernel(key: JKey,
                                    transition_sampler, measurement_cond_logpdf, cond_resampling, nsamples,
                                    **kwargs)
     if backward:
-        xs_star, bs_star = backward_sampling_pass(key_bwd, transition_logpdf, vs, ts, xss, log_ws, **kwargs)
+        xs_star, bs_star = backward_sampling_pass(key_bwd, transition_logpdf, measurement_cond_logpdf,
+                                                   vs, ts, xss, log_ws, **kwargs)
     else:
         xs_star, bs_star = backward_scanning_pass(key_bwd, As, xss, log_ws[-1])
     return xs_star, bs_star
@@ -164,7 +165,7 @@ def forward_pass(key: JKey,
     return As, log_wss, uss
 
 
-def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, **kwargs):
+def backward_sampling_pass(key, transition_logpdf, likelihood_logpdf, vs, ts, uss, log_ws, *args, **kwargs):
     """
     Backward sampling pass for the cSMC kernel.
 
@@ -174,6 +175,9 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
         Random number generator key.
     transition_logpdf:
         The transition logpdf. p(x_k | x_{k-1})
+    likelihood_logpdf:
+        The measurement conditional logpdf. p(v_k | x_{k-1}, v_{k-1}). Since it depends on x_{k-1}, it is a part of the
+        backward weights.
     uss:
         JArray of particles.
     log_ws:
@@ -202,8 +206,9 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
     x_T = uss[-1, B_T]
 
     def body(x_t, inp):
-        op_key, xs_t_m_1, log_w_t_m_1, v_t_m_1, t_m_1 = inp
+        op_key, xs_t_m_1, log_w_t_m_1, v_t, v_t_m_1, t_m_1 = inp
         Gamma_log_w = transition_logpdf(x_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)  # I swapped the order
+        Gamma_log_w += likelihood_logpdf(v_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)
         Gamma_log_w -= jnp.max(Gamma_log_w)
         log_w = Gamma_log_w + log_w_t_m_1
         w = normalise(log_w)
@@ -214,7 +219,7 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
     # Reverse arrays, ideally, should use jax.lax.scan(reverse=True) but it is simpler this way due to insertions.
     # xs[-2::-1] is the reversed list of xs[:-1], I know, not readable... Same for log_ws.
     # vs[-1:0:-1] means the reverse of vs[1:]
-    inps = keys[:-1], uss[-2::-1], log_ws[-2::-1], vs[-2::-1], ts[-2::-1]
+    inps = keys[:-1], uss[-2::-1], log_ws[-2::-1], vs[:0:-1], vs[-2::-1], ts[-2::-1]
 
     # Run backward pass
     _, (uss, Bs, Ws) = jax.lax.scan(body, x_T, inps)
-- 
2.43.0


From 9153d4e408717c569b339fe10d26a3397865a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 02/41] fix: keep the sorted uniforms of multinomial resampling
 finite and in range

---
 fbs/samplers/resampling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fbs/samplers/resampling.py b/fbs/samplers/resampling.py
index 84a1478..b94e58b 100644
--- a/fbs/samplers/resampling.py
+++ b/fbs/samplers/resampling.py
@@ -35,7 +35,7 @@ from fbs.typings import JArray, JKey
 
 def _sorted_uniforms(n, key: JKey) -> JArray:
     # Credit goes to Nicolas Chopin
-    us = jax.random.uniform(key, (n + 1,))
+    us = jax.random.uniform(key, (n + 1,), minval=jnp.finfo(jnp.result_type(float)).tiny)  # log(0) would give NaNs
     z = jnp.cumsum(-jnp.log(us))
     return z[:-1] / z[-1]
 
@@ -63,8 +63,9 @@ def multinomial(weights: JArray, key: JKey) -> JArray:
     """Not tested.
     """
     n = weights.shape[0]
-    idx = jnp.searchsorted(jnp.cumsum(weights),
-                           _sorted_uniforms(n, key))
+    cum_weights = jnp.cumsum(weights)
+    idx = jnp.searchsorted(cum_weights,
+                           cum_weights[-1] * _sorted_uniforms(n, key))
     return jnp.clip(idx, 0, n - 1)
 
 
-- 
2.43.0


From 94da1826ae3f0c797b915406863f6d5a4653d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 03/41] fix: never select zero-weight particles in systematic
 and stratified resampling

---
 fbs/samplers/resampling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fbs/samplers/resampling.py b/fbs/samplers/resampling.py
index b94e58b..67d2de4 100644
--- a/fbs/samplers/resampling.py
+++ b/fbs/samplers/resampling.py
@@ -43,11 +43,12 @@ def _sorted_uniforms(n, key: JKey) -> JArray:
 def _systematic_or_stratified(weights: JArray, key: JKey, is_systematic: bool) -> JArray:
     n = weights.shape[0]
     if is_systematic:
-        u = jax.random.uniform(key, ())
+        u = 1. - jax.random.uniform(key, ())  # in (0, 1], so as to never select a leading zero weight
     else:
-        u = jax.random.uniform(key, (n,))
-    idx = jnp.searchsorted(jnp.cumsum(weights),
-                           (jnp.arange(n, dtype=weights.dtype) + u) / n)
+        u = 1. - jax.random.uniform(key, (n,))
+    cum_weights = jnp.cumsum(weights)
+    idx = jnp.searchsorted(cum_weights,
+                           cum_weights[-1] * ((jnp.arange(n, dtype=weights.dtype) + u) / n))
     return jnp.clip(idx, 0, n - 1)
 
 
-- 
2.43.0


From 31b06bfae04d7a0b5ca727d2b8fbd13388a7a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 04/41] fix: keep standard systematic resampling in range and
 off zero-weight particles

---
 fbs/samplers/csmc/resamplings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/samplers/csmc/resamplings.py b/fbs/samplers/csmc/resamplings.py
index 351b996..44c04f3 100644
--- a/fbs/samplers/csmc/resamplings.py
+++ b/fbs/samplers/csmc/resamplings.py
@@ -119,9 +119,9 @@ def systematic(key: JKey, weights: JArray, i: Optional[int] = 0, j: Optional[int
 
 def _standard_systematic(key: JKey, weights: JArray) -> JArray:
     N = weights.shape[0]
-    u = (jnp.arange(N) + jax.random.uniform(key)) / N
+    u = (jnp.arange(N) + 1. - jax.random.uniform(key)) / N  # in (0, 1]
     cum_weights = jnp.cumsum(weights)
-    indices = jnp.searchsorted(cum_weights, u)
+    indices = jnp.searchsorted(cum_weights, cum_weights[-1] * u)
     return indices
 
 
-- 
2.43.0


From 37913f3a46fb7fc3445616786eab6e59b5d73edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 05/41] fix: report the acceptance probability of the forced
 move

---
 fbs/samplers/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index a8fab78..fcef189 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -208,7 +208,7 @@ def force_move(key: JKey, weights: JArray, k: FloatScalar) -> Tuple[JInt, JFloat
     u = jax.random.uniform(key_2, shape=())
     accept = u * (1 - weights[i]) < temp  # u < (1 - w_k) / (1 - w_i)
 
-    alpha = jnp.nansum(temp * rest_weights / (1 - weights))
+    alpha = jnp.nansum(rest_weights * jnp.minimum(1., temp / (1 - weights)))
     i = jax.lax.select(accept, i, k)
 
     return i, jnp.clip(alpha, 0, 1.)
-- 
2.43.0


From fa70355695a0890c955352a67429fec55691a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 06/41] fix: let the Gibbs kernel forward keyword arguments
 with a pinned initial state

---
 fbs/samplers/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index fcef189..136ba05 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -140,7 +140,7 @@ def gibbs_kernel(key: JKey, x0: JArray, y0: JArray, us_star: JArray, bs_star: JA
         def init_sampler(*_):
             return us[0] * jnp.ones((nparticles, *us.shape[1:]))
 
-        def init_likelihood_logpdf(*_):
+        def init_likelihood_logpdf(*_, **__):
             return -math.log(nparticles) * jnp.ones(nparticles)
 
     if explicit_backward:
-- 
2.43.0


From 2539ee44653bc074d1ba894a178d4221d3c39b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 07/41] fix: do not weight the first likelihood twice when the
 Gibbs kernel draws its reference

---
 fbs/samplers/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 136ba05..0908434 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -134,7 +134,7 @@ def gibbs_kernel(key: JKey, x0: JArray, y0: JArray, us_star: JArray, bs_star: JA
             return jax.random.normal(key_, (n_samples, *us.shape[1:]))
 
         def init_likelihood_logpdf(v0, u0s, v1, **kwargs):
-            return likelihood_logpdf(v0, u0s, v1, ts[0], **kwargs)
+            return jnp.zeros(u0s.shape[0])  # p(v_1 | u_0, v_0) is accounted for at the first filtering step
 
     else:
         def init_sampler(*_):
-- 
2.43.0


From 718e7e23ee1c9307b23ca8ae5cb21c7ccff46b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 08/41] fix: honour log=False in the bootstrap filter

---
 fbs/samplers/smc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index f35464b..89ea9e6 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -63,6 +63,8 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray, FloatScalar,
         us = transition_sampler(us_prev, v_prev, t_prev, key_proposal, **kwargs)
 
         log_weights = measurement_cond_pdf(v, us_prev, v_prev, t_prev, **kwargs)
+        if not log:
+            log_weights = jnp.log(log_weights)
         _c = jax.scipy.special.logsumexp(log_weights)
         log_nell -= _c - math.log(nparticles)
         log_weights = log_weights - _c
-- 
2.43.0


From 844e670e19f84756c3125e13699bc267cb475e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 09/41] fix: draw the proposed particle fairly in the particle
 MCMC kernel

---
 fbs/samplers/smc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 89ea9e6..3bfa41e 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -230,7 +230,7 @@ def pmcmc_kernel(key: JKey,
     -----
     It is possible to not store the whole trajectory Y by means of Doob's transform.
     """
-    key_prop, key_u0, key_filter, key_mh = jax.random.split(key, num=4)
+    key_prop, key_u0, key_filter, key_mh, key_which = jax.random.split(key, num=5)
 
     if delta is None:
         prop_ys = fwd_ys_sampler(key_prop, y0)
@@ -243,7 +243,8 @@ def pmcmc_kernel(key: JKey,
     u0s = ref_sampler(key_u0, vs[0], nparticles)  # p(u0 | y0)
     prop_uTs, prop_log_ell = pmcmc_filter_step(key_filter, vs, u0s, ts, transition_sampler, likelihood_logpdf,
                                                resampling, nparticles, **kwargs)
-    prop_uT = prop_uTs[which_u]
+    # Resampling may sort the particles (e.g., stratified), hence a fixed slot is not a fair draw among them
+    prop_uT = jax.random.permutation(key_which, prop_uTs)[which_u]
 
     log_acc_prob = jnp.minimum(0., prop_log_ell - log_ell)
 
-- 
2.43.0


From 6c6d05a2cd7562cbddb17035ddcba2a768d25b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 10/41] fix: draw the terminal state of the backward smoother
 with its own key

---
 fbs/samplers/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 3bfa41e..2b26b89 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -108,7 +108,7 @@ def bootstrap_backward_smoother(key: JKey,
 
     nsteps = filter_us.shape[0] - 1
     key_last, key_smoother = jax.random.split(key, num=2)
-    uT = jax.random.choice(key, filter_us[-1], axis=0)
+    uT = jax.random.choice(key_last, filter_us[-1], axis=0)
     traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-2::-1], ts[-2::-1],
                                         jax.random.split(key_smoother, num=nsteps)))[1][::-1]
     return jnp.concatenate([traj, jnp.expand_dims(uT, axis=0)], axis=0)
-- 
2.43.0


From 3e2d3fbc25ab1144dffdd1c10256af02f96662b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 11/41] fix: marginal-only forward simulation with several
 times and array states, starting at ts[0] by default

---
 fbs/sdes/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 31d579d..0867c65 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -220,7 +220,8 @@ def make_linear_sde(sde: LinearSDE):
             rnds = jax.random.normal(key, (ts.shape[0] - 1, *x0.shape))
             return jnp.concatenate([x0[jnp.newaxis], jax.lax.scan(scan_body, x0, (ts[1:], ts[:-1], rnds))[1]], axis=0)
         else:
-            Fs, Qs = discretise_linear_sde(ts, t0)
+            Fs, Qs = [jnp.reshape(c, (*ts.shape, *(1,) * x0.ndim))
+                      for c in discretise_linear_sde(ts, ts[0] if t0 is None else t0)]
             rnds = jax.random.normal(key, (*ts.shape, *x0.shape))
             return Fs * x0 + jnp.sqrt(Qs) * rnds
 
-- 
2.43.0


From 7f575ebdff1f7b991c211cecf0a19c4b6a6f31c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 12/41] fix: marginal-only OU simulation starts at ts[0]

---
 fbs/sdes/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 0867c65..f5963d8 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -155,7 +155,7 @@ def make_ou_sde(a, b):
             rnds = jax.random.normal(key, (dts.shape[0], x0.shape[0]))
             return jnp.concatenate([x0[None, :], jax.lax.scan(scan_body, x0, (dts, rnds))[1]], axis=0)
         else:
-            Fs, Qs = discretise_ou_sde(ts)
+            Fs, Qs = discretise_ou_sde(ts - ts[0])
             rnds = jax.random.normal(key, (ts.shape[0], x0.shape[0]))
             return Fs[:, None] * x0[None, :] + jnp.sqrt(Qs)[:, None] * rnds
 
-- 
2.43.0


From 24c8b9e60a95fe5deb97b7b32592d3aee422a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 13/41] fix: substep times of Euler-Maruyama on decreasing
 grids

---
 fbs/sdes/simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/simulators.py b/fbs/sdes/simulators.py
index 4ebd121..e278987 100644
--- a/fbs/sdes/simulators.py
+++ b/fbs/sdes/simulators.py
@@ -89,7 +89,8 @@ def euler_maruyama(key: JKey, x0: JArray, ts: JArray,
 
         ddt = jnp.abs(t_next - t) / integration_nsteps
         rnds = jax.random.normal(key_, (integration_nsteps, *x0.shape))
-        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next - ddt, integration_nsteps)))[0]
+        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next - (t_next - t) / integration_nsteps,
+                                                          integration_nsteps)))[0]
 
     def scan_body(carry, elem):
         x = carry
-- 
2.43.0


From 69963c160218785497cfbefdf97e945de14e45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 14/41] fix: OU score matching loss measures times from t0

---
 fbs/sdes/linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index f5963d8..e502c3b 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -382,14 +382,14 @@ def make_ou_score_matching_loss(a, b, nn_score, t0=0., T=2., nsteps: int = 100,
                              T])
         else:
             ts = jnp.linspace(t0, T, nsteps + 1)
-        scales = score_scale(ts[1:])
+        scales = score_scale(ts[1:] - t0)
 
         keys = jax.random.split(key_fwd, num=nsamples)
         fwd_paths = jax.vmap(simulate_cond_forward, in_axes=[0, 0, None])(keys, x0s, ts)
         nn_evals = jax.vmap(nn_score, in_axes=[1, 0, None], out_axes=1)(fwd_paths[:, 1:], ts[1:], param)
         cond_score_evals = jax.vmap(jax.vmap(cond_score_t_0,
                                              in_axes=[0, 0, None]),
-                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:], fwd_paths[:, 0])
+                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:] - t0, fwd_paths[:, 0])
         return jnp.mean(jnp.mean((nn_evals - cond_score_evals) ** 2, axis=-1) * scales[None, :])
 
     return loss_fn
-- 
2.43.0


From 98a3afbbd48dd3332006fb77bcdb641259305425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 15/41] fix: keep the random times of the OU score matching
 loss off t0

---
 fbs/sdes/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index e502c3b..6866387 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -368,6 +368,7 @@ def make_linear_sde_law_loss(sde: LinearSDE,
 
 def make_ou_score_matching_loss(a, b, nn_score, t0=0., T=2., nsteps: int = 100, random_times: bool = True):
     discretise_ou_sde, cond_score_t_0, simulate_cond_forward = make_ou_sde(a, b)
+    eps = 1e-5  # keep the random times off t0, where the score is singular
 
     def score_scale(t):
         return discretise_ou_sde(t)[1]
@@ -378,7 +379,7 @@ def make_ou_score_matching_loss(a, b, nn_score, t0=0., T=2., nsteps: int = 100,
 
         if random_times:
             ts = jnp.hstack([t0,
-                             jnp.sort(jax.random.uniform(key_ts, (nsteps - 1,), minval=t0, maxval=T)),
+                             jnp.sort(jax.random.uniform(key_ts, (nsteps - 1,), minval=t0 + eps, maxval=T)),
                              T])
         else:
             ts = jnp.linspace(t0, T, nsteps + 1)
-- 
2.43.0


From 2e959fac2c3dabd55a8ffa74c9cac50f998a4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 16/41] fix: square root of singular positive semi-definite
 matrices

---
 fbs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/utils.py b/fbs/utils.py
index 8a79862..460568e 100644
--- a/fbs/utils.py
+++ b/fbs/utils.py
@@ -23,7 +23,7 @@ def sqrtm(mat: JArray, method: str = 'eigh') -> JArray:
     """
     if method == 'eigh':
         eigenvals, eigenvecs = jnp.linalg.eigh(mat)
-        return eigenvecs @ jnp.diag(jnp.sqrt(eigenvals)) @ eigenvecs.T
+        return eigenvecs @ jnp.diag(jnp.sqrt(jnp.maximum(eigenvals, 0.))) @ eigenvecs.T
     else:
         return jnp.real(jax.scipy.linalg.sqrtm(mat))
 
-- 
2.43.0


From 6ac5cb403d50f641a966848eabbca0ef9df6ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 17/41] fix: factor one half of the Gaussian Kullback-Leibler
 divergence

---
 fbs/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbs/utils.py b/fbs/utils.py
index 460568e..86430a2 100644
--- a/fbs/utils.py
+++ b/fbs/utils.py
@@ -48,6 +48,6 @@ def kl(m0, cov0, m1, cov1):
     chol1 = jax.scipy.linalg.cho_factor(cov1)
     log_det0 = _log_det(chol0[0])
     log_det1 = _log_det(chol1[0])
-    return (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
-            - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
-            + log_det1 - log_det0)
+    return 0.5 * (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
+                  - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
+                  + log_det1 - log_det0)
-- 
2.43.0


From 5df06d5c979e4e631b78f5c13ebcd6c2e1c68edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 18/41] fix: blur every colour channel on its own

---
 fbs/data/images.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fbs/data/images.py b/fbs/data/images.py
index 4a38e6c..ed532e3 100644
--- a/fbs/data/images.py
+++ b/fbs/data/images.py
@@ -48,9 +48,10 @@ class Image(Dataset):
         variance = jax.random.uniform(key, minval=0.1, maxval=5.)  # it's not conjugate yeah I know...
         z_ = jnp.dstack(jnp.meshgrid(jnp.linspace(-1, 1, kernel_size), jnp.linspace(-1, 1, kernel_size)))
         kernel = jnp.broadcast_to(jnp.prod(jnp.exp(-z_ ** 2 / variance), axis=-1),
-                                  (c, c, kernel_size, kernel_size))
+                                  (1, c, kernel_size, kernel_size))
         corrupted_img = jax.lax.conv_general_dilated(img, kernel, (1, 1), 'SAME',
-                                                     dimension_numbers=('NHWC', 'IOHW', 'NHWC'))[0]
+                                                     dimension_numbers=('NHWC', 'IOHW', 'NHWC'),
+                                                     feature_group_count=c)[0]
         return normalise(corrupted_img, method='norm')
 
     def paint(self, key, img: Array, rectangle_size: int = 15) -> JArray:
-- 
2.43.0


From 213ad58255a4f99339ec2183a39d5677e02b5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 19/41] fix: rescaling a constant image no longer gives NaN

---
 fbs/data/images.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/images.py b/fbs/data/images.py
index ed532e3..7d9836b 100644
--- a/fbs/data/images.py
+++ b/fbs/data/images.py
@@ -419,4 +419,4 @@ def normalise(img: JArray, method: str = 'clip') -> JArray:
     else:
         mins = jnp.min(img, axis=[-2, -3], keepdims=True)
         maxs = jnp.max(img, axis=[-2, -3], keepdims=True)
-        return (img - mins) / (maxs - mins)
+        return (img - mins) / jnp.where(maxs > mins, maxs - mins, 1.)
-- 
2.43.0


From 7f43e8fd87d350919c25128c31673d996699ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 20/41] fix: the prior of the crescent benchmark has the
 documented variances

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index de63431..8aa5b4a 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -36,7 +36,7 @@ class Crescent(Dataset):
 
     def log_prior_pdf(self, phi):
         if self.cov_is_diag:
-            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.diag(self.cov)))
+            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.sqrt(jnp.diag(self.cov))))
         else:
             return jax.scipy.stats.multivariate_normal.logpdf(phi, self.m, self.cov)
 
-- 
2.43.0


From 77c3500240f6605b6641969166c0f736cca62761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 21/41] fix: integrate the crescent posterior along the axes of
 its mesh

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index 8aa5b4a..dcc6fc9 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -52,7 +52,7 @@ class Crescent(Dataset):
         def energy(phi): return jnp.exp(self.log_prior_pdf(phi) + self.log_cond_pdf_likelihood(y, phi))
 
         evals = jax.vmap(jax.vmap(energy, in_axes=[0]), in_axes=[0])(phi_mesh)
-        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=0),
+        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=1),
                                           phi_mesh[:, 0, 1])
         return evals / z
 
-- 
2.43.0


From bd3dc98fb7220135a647722c0dc84c94ebdf7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 22/41] fix: sample the crescent prior with a correlated
 covariance

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index dcc6fc9..733e9a5 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -23,7 +23,7 @@ class Crescent(Dataset):
 
     def sampler(self, key: JKey, batch_size: int) -> Tuple[JArray, JArray]:
         key, subkey = jax.random.split(key)
-        xs = self.m + jax.random.normal(subkey, (batch_size, 2)) @ jnp.linalg.cholesky(self.cov)
+        xs = self.m + jax.random.normal(subkey, (batch_size, 2)) @ jnp.linalg.cholesky(self.cov).T
 
         key, subkey = jax.random.split(key)
         ys = (jax.vmap(self.emission, in_axes=[0, None])(xs, self.psi)
-- 
2.43.0


From 6cbaafd63c736589a3b754c2532fdcf2698b5722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 23/41] fix: sinusoidal embedding of size two

---
 fbs/nn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/nn/base.py b/fbs/nn/base.py
index fb322af..51300ff 100644
--- a/fbs/nn/base.py
+++ b/fbs/nn/base.py
@@ -69,7 +69,7 @@ def sinusoidal_embedding(t: Union[JArray, FloatScalar], out_dim: int = 64, max_p
     """
     half = out_dim // 2
 
-    fs = jnp.exp(-math.log(max_period) * jnp.arange(half) / (half - 1))
+    fs = jnp.exp(-math.log(max_period) * jnp.arange(half) / max(half - 1, 1))
     embs = t * fs
     embs = jnp.concatenate([jnp.sin(embs), jnp.cos(embs)], axis=-1)
     if out_dim % 2 == 1:
-- 
2.43.0


From 72919f3d08a85ee9e7bcddfd2319734c88abec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 24/41] fix: the resize decoder of MNISTResConv refers to the
 batch size of its input

---
 fbs/nn/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/nn/models.py b/fbs/nn/models.py
index c246bb0..ad38ba0 100644
--- a/fbs/nn/models.py
+++ b/fbs/nn/models.py
@@ -198,12 +198,12 @@ class MNISTResConv(nn.Module):
             x = x + x1
             x = nn.Conv(features=1, kernel_size=(3, 3))(x)  # (n, 28, 28, 1)
         else:
-            x = jax.image.resize(x, (self.batch_spatial, 14, 14, 64), 'nearest')
+            x = jax.image.resize(x, (batch_size, 14, 14, 64), 'nearest')
             x = nn.Conv(features=64, kernel_size=(3, 3))(x)
             x = nn.GroupNorm(num_groups=8)(x)
             x = nn.silu(x)
             x = x + x2
-            x = jax.image.resize(x, (self.batch_spatial, 28, 28, 64), 'nearest')
+            x = jax.image.resize(x, (batch_size, 28, 28, 64), 'nearest')
             x = nn.Conv(features=32, kernel_size=(3, 3))(x)
             x = nn.GroupNorm(num_groups=8)(x)
             x = nn.silu(x)
-- 
2.43.0


From 110ecb050e37292ca158fa7c17f53c4bee466785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 25/41] fix: networks whose initialiser was taken for a method
 of the module

---
 fbs/nn/models.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/fbs/nn/models.py b/fbs/nn/models.py
index ad38ba0..c2664e4 100644
--- a/fbs/nn/models.py
+++ b/fbs/nn/models.py
@@ -119,25 +119,24 @@ class MNISTAutoEncoder(nn.Module):
     """
     # This does not really work.
     nn_param_dtype = jnp.float64
-    nn_param_init = nn.initializers.xavier_normal()
 
     @nn.compact
     def __call__(self, xy, t):
-        xy = nn.Dense(features=128, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(xy)
+        xy = nn.Dense(features=128, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(xy)
         xy = nn.relu(xy)
-        xy = nn.Dense(features=32, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(xy)
+        xy = nn.Dense(features=32, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(xy)
 
         t = sinusoidal_embedding(t, out_dim=128)
-        t = nn.Dense(features=64, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(t)
+        t = nn.Dense(features=64, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(t)
         t = nn.relu(t)
-        t = nn.Dense(features=32, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(t)
+        t = nn.Dense(features=32, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(t)
 
         z = jnp.concatenate([xy, t], axis=-1)
-        z = nn.Dense(features=128, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(z)
+        z = nn.Dense(features=128, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(z)
         z = nn.relu(z)
-        z = nn.Dense(features=256, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(z)
+        z = nn.Dense(features=256, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(z)
         z = nn.relu(z)
-        z = nn.Dense(features=784 * 2, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(z)
+        z = nn.Dense(features=784 * 2, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(z)
         return jnp.squeeze(z)
 
 
@@ -145,7 +144,6 @@ class MNISTResConv(nn.Module):
     """Used in preliminary experiments only.
     """
     nn_param_dtype = jnp.float64
-    nn_param_init = nn.initializers.xavier_normal()
     dt: float
     decoder: str = 'pixel_shuffle'
 
@@ -227,29 +225,28 @@ def make_simple_st_nn(key,
 
     class ClassicMLP(nn.Module):
         nn_param_dtype = jnp.float64
-        nn_param_init = nn.initializers.xavier_normal()
 
         @nn.compact
         def __call__(self, x, t):
             d = x.shape[-1]
 
             # Spatial part
-            x = nn.Dense(features=16, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(x)
+            x = nn.Dense(features=16, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(x)
             x = nn.relu(x)
-            x = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(x)
+            x = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(x)
 
             # Temporal part
             t = sinusoidal_embedding(t, out_dim=embed_dim)
-            t = nn.Dense(features=16, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(t)
+            t = nn.Dense(features=16, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(t)
             t = nn.relu(t)
-            t = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(t)
+            t = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(t)
 
             z = jnp.concatenate([x, t], axis=-1)
-            z = nn.Dense(features=32, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(z)
+            z = nn.Dense(features=32, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(z)
             z = nn.relu(z)
-            z = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(z)
+            z = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(z)
             z = nn.relu(z)
-            z = nn.Dense(features=d, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(z)
+            z = nn.Dense(features=d, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(z)
             return jnp.squeeze(z)
 
     if nn_model is None:
-- 
2.43.0


From 0fc4e9d6b6366b2c9bfbc589eaf2500272e7bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 26/41] fix: default network of make_simple_st_nn with a batch

---
 fbs/nn/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fbs/nn/models.py b/fbs/nn/models.py
index c2664e4..86983c8 100644
--- a/fbs/nn/models.py
+++ b/fbs/nn/models.py
@@ -236,12 +236,15 @@ def make_simple_st_nn(key,
             x = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(x)
 
             # Temporal part
-            t = sinusoidal_embedding(t, out_dim=embed_dim)
+            if t.ndim < 1:
+                t = sinusoidal_embedding(t, out_dim=embed_dim)
+            else:
+                t = jax.vmap(lambda t_: sinusoidal_embedding(t_, out_dim=embed_dim))(t)
             t = nn.Dense(features=16, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(t)
             t = nn.relu(t)
             t = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(t)
 
-            z = jnp.concatenate([x, t], axis=-1)
+            z = jnp.concatenate([x, jnp.broadcast_to(t, (*x.shape[:-1], 8))], axis=-1)
             z = nn.Dense(features=32, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(z)
             z = nn.relu(z)
             z = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(z)
-- 
2.43.0


From 07253a0118908325b953ecbf8ee99f9ea32124f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 27/41] fix: times handed to the transition, proposal and
 twisting functions of twisted SMC

---
 fbs/samplers/smc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 2b26b89..364ff94 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -278,7 +278,7 @@ def twisted_smc(key: JKey, y: JArray, ts: JArray,
 
     def scan_body(carry, elem):
         xs_prev, log_ps_prev, log_ws = carry
-        key_step, t_prev = elem
+        key_step, t_prev, t = elem
 
         key_resampling, key_prop = jax.random.split(key_step)
 
@@ -291,7 +291,7 @@ def twisted_smc(key: JKey, y: JArray, ts: JArray,
         xs = twisting_prop_sampler(key_prop, xs_prev, t_prev, y, **kwargs)
 
         # Weights
-        log_ps = twisting_logpdf(y, xs, t_prev, **kwargs)
+        log_ps = twisting_logpdf(y, xs, t, **kwargs)
         log_ws = (transition_logpdf(xs, xs_prev, t_prev) + log_ps
                   - twisting_prop_logpdf(xs, xs_prev, t_prev, y, **kwargs) - log_ps_prev)
         log_ws = log_ws - jax.scipy.special.logsumexp(log_ws)
@@ -308,5 +308,5 @@ def twisted_smc(key: JKey, y: JArray, ts: JArray,
 
     (samples, _, log_weights), _ = jax.lax.scan(scan_body,
                                                 (init_xs, init_log_ps, init_log_ws),
-                                                (keys, ts[1:]))
+                                                (keys, ts[:-1], ts[1:]))
     return samples, log_weights
-- 
2.43.0


From 04dea143ea6c5003320fb77699c52765a6aa8f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 28/41] fix: initial state of the Gibbs sampler is a fair draw
 and ends the returned path

---
 fbs/samplers/gibbs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 0908434..dbdea78 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -48,14 +48,15 @@ def gibbs_init(key, y0, x0_shape, ts,
         return jax.random.normal(key_u0, (nparticles, *x0_shape))
 
     if method == 'filter':
-        approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
-                                     stratified, log=True, return_last=True, **kwargs)[0][0]
+        uts = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
+                               stratified, log=True, return_last=True, **kwargs)[0]
+        approx_x0 = jax.random.choice(key_bwd, uts, axis=0)
         approx_us_star = unpack(fwd_sampler(key_fwd2, approx_x0, y0, **kwargs), **kwargs)[0][::-1]
     elif method == 'smoother':
         uss = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                stratified, log=True, return_last=False, **kwargs)[0]
-        approx_x0 = uss[-1, 0]
         approx_us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf, **kwargs)
+        approx_x0 = approx_us_star[-1]
     elif method == 'debug':
         approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                      stratified, log=True, return_last=False, **kwargs)[0]
-- 
2.43.0


From d0582709b369bf8880cdf12ac68bc9d5bb88911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 29/41] fix: draw Gaussians in the GP experiments with the
 transposed Cholesky factor

---
 experiments/sb/filter.py     | 4 ++--
 experiments/sb/gibbs.py      | 4 ++--
 experiments/toy/gp_filter.py | 2 +-
 experiments/toy/gp_gibbs.py  | 2 +-
 experiments/toy/gp_kf.py     | 2 +-
 experiments/toy/gp_pmcmc.py  | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index 5e7800b..7ef121e 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -49,7 +49,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol.T
 
 
 joint_mean = jnp.zeros((2 * d,))
@@ -128,7 +128,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_ys_sampler_proper(key_):
diff --git a/experiments/sb/gibbs.py b/experiments/sb/gibbs.py
index 03426be..d434b48 100644
--- a/experiments/sb/gibbs.py
+++ b/experiments/sb/gibbs.py
@@ -51,7 +51,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol.T
 
 
 joint_mean = jnp.zeros((2 * d,))
@@ -135,7 +135,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 889e520..5150f07 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -124,7 +124,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_ys_sampler(key_, y0_):
diff --git a/experiments/toy/gp_gibbs.py b/experiments/toy/gp_gibbs.py
index 7d344c4..6cc194f 100644
--- a/experiments/toy/gp_gibbs.py
+++ b/experiments/toy/gp_gibbs.py
@@ -138,7 +138,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_kf.py b/experiments/toy/gp_kf.py
index e0ce923..f385c9a 100644
--- a/experiments/toy/gp_kf.py
+++ b/experiments/toy/gp_kf.py
@@ -153,7 +153,7 @@ def conditional_sampler(key_):
     vs = path_y[::-1]
     u0_mean, u0_cov = ref_solver(vs[0])
     x0_mean, x0_cov = adhoc_kf(u0_mean, u0_cov, vs)
-    return x0_mean + jax.random.normal(key_kf, (d,)) @ jnp.linalg.cholesky(x0_cov)
+    return x0_mean + jax.random.normal(key_kf, (d,)) @ jnp.linalg.cholesky(x0_cov).T
 
 
 approx_cond_samples = np.zeros((nsamples, d))
diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index 0ede830..bc69582 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -130,7 +130,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
-- 
2.43.0


From bf14e7db929fa2e3ca10a8d1b4d7d86afbb5ea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 30/41] fix: draw the initial state of the conditional score GP
 experiment with its covariance

---
 experiments/toy/gp_csgm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/toy/gp_csgm.py b/experiments/toy/gp_csgm.py
index b614822..b0253bd 100644
--- a/experiments/toy/gp_csgm.py
+++ b/experiments/toy/gp_csgm.py
@@ -73,7 +73,7 @@ cond_cov_ref = F_ref ** 2 * cov_mat + Q_ref * jnp.eye(d) - F_ref * cov_mat @ jax
 
 
 def cond_ref_sampler(key_):
-    return cond_m_ref + cond_cov_ref @ jax.random.normal(key_, (d,))
+    return cond_m_ref + jnp.linalg.cholesky(cond_cov_ref) @ jax.random.normal(key_, (d,))
 
 
 # The reverse process
-- 
2.43.0


From 4c0db5cd7a7fd6b3acc26b988d2f437d5bf1dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 31/41] fix: the filter experiments save a fair draw of the
 last particles

---
 experiments/sb/filter.py     | 6 +++---
 experiments/toy/gp_filter.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index 7ef121e..e6a316d 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -156,9 +156,9 @@ def conditional_sampler(key_):
     else:
         raise ValueError(f'Invalid "{args.x0}" method')
     vs = path_y[::-1]
-    approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                 stratified, log=True, return_last=True)[0][0]
-    return approx_x0
+    approx_x0s = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                                  stratified, log=True, return_last=True)[0]
+    return jax.random.choice(key_bwd, approx_x0s, axis=0)
 
 
 approx_cond_samples = np.zeros((nsamples, d))
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 5150f07..3bb4a3b 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -137,9 +137,9 @@ def conditional_sampler(key_):
     key_fwd, key_bwd, key_bf = jax.random.split(key_, num=3)
     path_y = fwd_ys_sampler(key_fwd, y0)
     vs = path_y[::-1]
-    approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                 stratified, log=True, return_last=True)[0][0]
-    return approx_x0
+    approx_x0s = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                                  stratified, log=True, return_last=True)[0]
+    return jax.random.choice(key_bwd, approx_x0s, axis=0)
 
 
 approx_cond_samples = np.zeros((nsamples, d))
-- 
2.43.0


From 9954146be4883133d92ed7f0fa02f0e18435c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 32/41] fix: start the particle MCMC experiment with the
 likelihood estimate of its measurement path

---
 experiments/toy/gp_pmcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index bc69582..c7a39ea 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -143,12 +143,12 @@ def fwd_ys_sampler(key_, y0_):
 
 # pMCMC initial
 def pmcmc_init(key_):
-    key_fwd, key_bwd, key_bf, key_ys = jax.random.split(key_, num=4)
+    key_fwd, key_bwd, key_bf = jax.random.split(key_, num=3)
     path_y = fwd_ys_sampler(key_fwd, y0)
     vs = path_y[::-1]
     x0s, log_ell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
                                     stratified, log=True, return_last=True)
-    return x0s[0], log_ell, fwd_ys_sampler(key_ys, y0)
+    return x0s[0], log_ell, path_y
 
 
 # pMCMC kernel
-- 
2.43.0


From b0aa4bdb8c28f6dfcce01065698433e716887714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 33/41] fix: hold out the same CelebA test images whatever the
 key of the loader

The images were permuted with the key before they were split, so that a test set loaded with another key than the training set
(the experiments train with seed 666 and test with seed 996) consisted of training images.
---
 fbs/data/images.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fbs/data/images.py b/fbs/data/images.py
index 7d9836b..dd49112 100644
--- a/fbs/data/images.py
+++ b/fbs/data/images.py
@@ -197,15 +197,16 @@ class CelebAHQ(Image):
                  test: bool = False):
         self.task = task
         data = jnp.load(data_path)
+        data = data[:1000] if test else data[1000:]  # split first, so that the test part is held out for every key
         data = jax.random.permutation(key, data, axis=0)
         data = self.standardise(data)
 
         if test:
             self.n = 1000
-            self.xs = data[:1000]
+            self.xs = data
         else:
             self.n = 29000
-            self.xs = data[1000:]
+            self.xs = data
 
         self.image_shape = (resolution, resolution, 3)
 
@@ -398,15 +399,16 @@ class CelebAHQRestore(ImageRestore):
                  test: bool = False):
         self.task = task
         data = jnp.load(data_path)
+        data = data[:1000] if test else data[1000:]  # split first, so that the test part is held out for every key
         data = jax.random.permutation(key, data, axis=0)
         data = self.standardise(data).astype('float32')
 
         if test:
             self.n = 1000
-            self.xs = data[:1000]
+            self.xs = data
         else:
             self.n = 29000
-            self.xs = data[1000:]
+            self.xs = data
 
         super().__init__(task, (resolution, resolution, 3))
 
-- 
2.43.0


From 4db170c1779bfe2f712df37ec952b3ebc6dfb55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 34/41] fix: count the steps of all epochs for the parameter
 average

The count restarted at every epoch. With fewer than 300 steps per epoch (234 or 113 with the shipped batch size of 256) the average
never started, and otherwise it was thrown away at the start of every epoch.
---
 experiments/imgs/train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/imgs/train.py b/experiments/imgs/train.py
index d2f5d6f..bd6f163 100644
--- a/experiments/imgs/train.py
+++ b/experiments/imgs/train.py
@@ -116,7 +116,7 @@ for i in range(nepochs):
         subkey, subkey2 = jax.random.split(subkey)
         x0s = dataset.enumerate_subset(j, perm_inds, subkey)
         param, opt_state, loss = optax_kernel(param, opt_state, subkey2, x0s)
-        ema_param = ema_kernel(ema_param, param, j, 300, 2, 0.99)
+        ema_param = ema_kernel(ema_param, param, i * nsteps_per_epoch + j, 300, 2, 0.99)
         print(f'{dataset_name} | {args.upsampling} | {args.sde} | {loss_type} | {args.schedule} | '
               f'Epoch: {i} / {nepochs}, iter: {j} / {data_size // train_nsamples}, loss: {loss:.4f}')
     if (i + 1) % 100 == 0:
-- 
2.43.0


From 2f050d3be544098b1b9da358849c03e023345210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 35/41] fix: never draw from a key of the training loops that
 is also split

---
 experiments/imgs/train.py    | 4 ++--
 experiments/sb_imgs/train.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/experiments/imgs/train.py b/experiments/imgs/train.py
index bd6f163..b58590c 100644
--- a/experiments/imgs/train.py
+++ b/experiments/imgs/train.py
@@ -110,8 +110,8 @@ ema_param = param
 opt_state = optimiser.init(param)
 
 for i in range(nepochs):
-    data_key, subkey = jax.random.split(data_key)
-    perm_inds = dataset.init_enumeration(subkey, train_nsamples)
+    data_key, key_perm, subkey = jax.random.split(data_key, 3)
+    perm_inds = dataset.init_enumeration(key_perm, train_nsamples)
     for j in range(nsteps_per_epoch):
         subkey, subkey2 = jax.random.split(subkey)
         x0s = dataset.enumerate_subset(j, perm_inds, subkey)
diff --git a/experiments/sb_imgs/train.py b/experiments/sb_imgs/train.py
index ccc3310..59b4203 100644
--- a/experiments/sb_imgs/train.py
+++ b/experiments/sb_imgs/train.py
@@ -170,8 +170,8 @@ def optax_kernel_fwd(param_fwd_, opt_state_, param_bwd_, key_, ref_samples):
 def sb_kernel(param_fwd_, param_bwd_, opt_state_fwd_, opt_state_bwd_, key_data, sb_step: int):
     # Learn the backward process, i.e., data <- ref
     for i in range(nepochs):
-        key_data, subkey = jax.random.split(key_data)
-        perm_inds = dataset.init_enumeration(subkey, train_nsamples)
+        key_data, key_perm, subkey = jax.random.split(key_data, 3)
+        perm_inds = dataset.init_enumeration(key_perm, train_nsamples)
         for j in range(nsteps_per_epoch):
             subkey, subkey2 = jax.random.split(subkey)
             x0s = dataset.enumerate_subset(j, perm_inds, subkey)
@@ -188,8 +188,8 @@ def sb_kernel(param_fwd_, param_bwd_, opt_state_fwd_, opt_state_bwd_, key_data,
     for i in range(nepochs):
         key_data, subkey = jax.random.split(key_data)
         for j in range(nsteps_per_epoch):
-            subkey, subkey2 = jax.random.split(subkey)
-            xTs = jax.random.normal(subkey, (train_nsamples, *d))
+            subkey, subkey2, key_ref = jax.random.split(subkey, 3)
+            xTs = jax.random.normal(key_ref, (train_nsamples, *d))
             param_fwd_, opt_state_fwd_, loss = optax_kernel_fwd(param_fwd_, opt_state_fwd_, param_bwd_, subkey2, xTs)
             print(f'{dataset_name} | Learning fwd ({args.sde}) | SB iter: {sb_step} | Epoch: {i} / {nepochs}, '
                   f'iter: {j} / {data_size // train_nsamples} | loss: {loss:.4f}')
-- 
2.43.0


From c0545f078ab5e61d8b468ddf20315a2ed35f56ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 36/41] fix: keep the initial image of every Gibbs chain of the
 bridge experiment

---
 experiments/sb_imgs/supr.py                  | 4 ++--
 experiments/tabulators/plot_sb_imgs_anime.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/sb_imgs/supr.py b/experiments/sb_imgs/supr.py
index 504685b..1ee3441 100644
--- a/experiments/sb_imgs/supr.py
+++ b/experiments/sb_imgs/supr.py
@@ -233,8 +233,8 @@ for x0_sampler, x0_sampler_name in zip([random_x0_sampler, blank_x0_sampler, int
         x0, us_star = gibbs_init(subkey, x0, test_y0, mask)
         bs_star = jnp.zeros((nsteps + 1), dtype=int)
         restored = dataset.concat(x0, test_y0, mask)
-        plt.imsave(path_head_img + '-gibbs-init.png', to_imsave(restored), cmap=cmap)
-        np.save(path_head_arr + '-gibbs-init', restored)
+        plt.imsave(path_head_img + f'-gibbs-init-{x0_sampler_name}.png', to_imsave(restored), cmap=cmap)
+        np.save(path_head_arr + f'-gibbs-init-{x0_sampler_name}', restored)
 
         for i in range(nsamples):
             key, subkey = jax.random.split(key)
diff --git a/experiments/tabulators/plot_sb_imgs_anime.py b/experiments/tabulators/plot_sb_imgs_anime.py
index c6ea186..500f8ee 100644
--- a/experiments/tabulators/plot_sb_imgs_anime.py
+++ b/experiments/tabulators/plot_sb_imgs_anime.py
@@ -45,7 +45,7 @@ corrupt_img = np.asarray(Image.open(path_head_arr + '-corrupt-lr.png').resize((2
 x0_type = 'blank'
 filter_random_imgs = to_img(np.load(path_head_arr + f'-filter-{x0_type}.npy'))
 gibbs_random_imgs = to_img(np.load(path_head_arr + f'-gibbs-eb-ef-{x0_type}.npy'))
-gibbs_random_imgs = jnp.concatenate([to_img(np.load(path_head_arr + '-gibbs-init.npy'))[None, :, :],
+gibbs_random_imgs = jnp.concatenate([to_img(np.load(path_head_arr + f'-gibbs-init-{x0_type}.npy'))[None, :, :],
                                      gibbs_random_imgs], axis=0)
 
 data_key, subkey = jax.random.split(data_key)
-- 
2.43.0


From 739c94b7cf751c43f68eb2f7290fab3936a69e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 37/41] fix: Kalman filter of the GP toy experiment: covariance
 of the Euler step, update before predicting

---
 experiments/toy/gp_kf.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/experiments/toy/gp_kf.py b/experiments/toy/gp_kf.py
index f385c9a..13f1c0b 100644
--- a/experiments/toy/gp_kf.py
+++ b/experiments/toy/gp_kf.py
@@ -4,7 +4,6 @@ Quickly test the KF approach. Not compared, since it should be exact.
 import jax
 import jax.numpy as jnp
 import numpy as np
-import math
 import matplotlib.pyplot as plt
 import argparse
 from fbs.sdes import make_linear_sde, StationaryConstLinearSDE, StationaryLinLinearSDE
@@ -105,7 +104,7 @@ def cond_state_mean(u_prev, v_prev, t_prev):
 
 
 def cond_state_cov(t_prev):
-    return math.sqrt(dt) * reverse_dispersion(t_prev) * jnp.eye(d)
+    return dt * reverse_dispersion(t_prev) ** 2 * jnp.eye(d)
 
 
 def cond_obs_mean(u_prev, v_prev, t_prev):
@@ -113,7 +112,7 @@ def cond_obs_mean(u_prev, v_prev, t_prev):
 
 
 def cond_obs_cov(t_prev):
-    return math.sqrt(dt) * reverse_dispersion(t_prev) * jnp.eye(d)
+    return dt * reverse_dispersion(t_prev) ** 2 * jnp.eye(d)
 
 
 def ref_solver(yT):
@@ -131,16 +130,17 @@ def adhoc_kf(init_m, init_v, vs):
         mf, vf = carry
         v, v_prev, t_prev = elem
 
-        F = jax.jacfwd(cond_state_mean, argnums=0)(mf, v_prev, t_prev)
-        mp = cond_state_mean(mf, v_prev, t_prev)
-        vp = F @ vf @ F.T + cond_state_cov(t_prev)
-
-        H = jax.jacfwd(cond_obs_mean, argnums=1)(mp, v_prev, t_prev)
-        S = H @ vp @ H.T + cond_obs_cov(t_prev)
+        # v depends on the previous state, hence update before predicting
+        H = jax.jacfwd(cond_obs_mean, argnums=0)(mf, v_prev, t_prev)
+        S = H @ vf @ H.T + cond_obs_cov(t_prev)
         chol_s = jax.scipy.linalg.cho_factor(S)
-        K = vp @ jax.scipy.linalg.cho_solve(chol_s, H).T
-        mf = mp + K @ (v - cond_obs_mean(mp, v_prev, t_prev))
-        vf = vp - K @ S @ K.T
+        K = vf @ jax.scipy.linalg.cho_solve(chol_s, H).T
+        mf = mf + K @ (v - cond_obs_mean(mf, v_prev, t_prev))
+        vf = vf - K @ S @ K.T
+
+        F = jax.jacfwd(cond_state_mean, argnums=0)(mf, v_prev, t_prev)
+        mf = cond_state_mean(mf, v_prev, t_prev)
+        vf = F @ vf @ F.T + cond_state_cov(t_prev)
         return (mf, vf), None
 
     return jax.lax.scan(scan_body, (init_m, init_v), (vs[1:], vs[:-1], ts[:-1]))[0]
-- 
2.43.0


From 1044fbce1e1272bc5eaf1d02d53f0d36ea0505af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 38/41] fix: read MNIST from experiments/datasets, where its
 README says and where CelebA is read from

---
 experiments/imgs/inpainting.py                 | 2 +-
 experiments/imgs/inpainting_csgm.py            | 2 +-
 experiments/imgs/inpainting_twisted.py         | 2 +-
 experiments/imgs/supr.py                       | 2 +-
 experiments/imgs/supr_csgm.py                  | 2 +-
 experiments/imgs/supr_twisted.py               | 2 +-
 experiments/imgs/train.py                      | 2 +-
 experiments/sb_imgs/supr.py                    | 2 +-
 experiments/sb_imgs/train.py                   | 2 +-
 experiments/tabulators/plot_img_coalescence.py | 2 +-
 experiments/tabulators/plot_sb_imgs_anime.py   | 2 +-
 11 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/experiments/imgs/inpainting.py b/experiments/imgs/inpainting.py
index 8304798..cb8892d 100644
--- a/experiments/imgs/inpainting.py
+++ b/experiments/imgs/inpainting.py
@@ -63,7 +63,7 @@ ts = jnp.linspace(0, T, nsteps + 1)
 key, subkey = jax.random.split(key)
 if dataset_name == 'mnist':
     d = (resolution, resolution, 1)
-    dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'inpaint-{rect_size}', test=True)
+    dataset = MNISTRestore(subkey, 'datasets/mnist.npz', task=f'inpaint-{rect_size}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
     dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
diff --git a/experiments/imgs/inpainting_csgm.py b/experiments/imgs/inpainting_csgm.py
index 9b89532..b0490a8 100644
--- a/experiments/imgs/inpainting_csgm.py
+++ b/experiments/imgs/inpainting_csgm.py
@@ -53,7 +53,7 @@ ts = jnp.linspace(0, T, nsteps + 1)
 key, subkey = jax.random.split(key)
 if dataset_name == 'mnist':
     d = (resolution, resolution, 1)
-    dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'inpaint-{rect_size}', test=True)
+    dataset = MNISTRestore(subkey, 'datasets/mnist.npz', task=f'inpaint-{rect_size}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
     dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
diff --git a/experiments/imgs/inpainting_twisted.py b/experiments/imgs/inpainting_twisted.py
index cc64287..0263bc6 100644
--- a/experiments/imgs/inpainting_twisted.py
+++ b/experiments/imgs/inpainting_twisted.py
@@ -56,7 +56,7 @@ ts = jnp.linspace(0, T, nsteps + 1)
 key, subkey = jax.random.split(key)
 if dataset_name == 'mnist':
     d = (resolution, resolution, 1)
-    dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'inpaint-{rect_size}', test=True)
+    dataset = MNISTRestore(subkey, 'datasets/mnist.npz', task=f'inpaint-{rect_size}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
     dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
diff --git a/experiments/imgs/supr.py b/experiments/imgs/supr.py
index 04e0c59..e6a4e65 100644
--- a/experiments/imgs/supr.py
+++ b/experiments/imgs/supr.py
@@ -63,7 +63,7 @@ ts = jnp.linspace(0, T, nsteps + 1)
 key, subkey = jax.random.split(key)
 if dataset_name == 'mnist':
     d = (resolution, resolution, 1)
-    dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'supr-{sr_rate}', test=True)
+    dataset = MNISTRestore(subkey, 'datasets/mnist.npz', task=f'supr-{sr_rate}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
     dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
diff --git a/experiments/imgs/supr_csgm.py b/experiments/imgs/supr_csgm.py
index 5b51150..16c5f41 100644
--- a/experiments/imgs/supr_csgm.py
+++ b/experiments/imgs/supr_csgm.py
@@ -53,7 +53,7 @@ ts = jnp.linspace(0, T, nsteps + 1)
 key, subkey = jax.random.split(key)
 if dataset_name == 'mnist':
     d = (resolution, resolution, 1)
-    dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'supr-{sr_rate}', test=True)
+    dataset = MNISTRestore(subkey, 'datasets/mnist.npz', task=f'supr-{sr_rate}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
     dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
diff --git a/experiments/imgs/supr_twisted.py b/experiments/imgs/supr_twisted.py
index 5cdefe4..09630f4 100644
--- a/experiments/imgs/supr_twisted.py
+++ b/experiments/imgs/supr_twisted.py
@@ -56,7 +56,7 @@ ts = jnp.linspace(0, T, nsteps + 1)
 key, subkey = jax.random.split(key)
 if dataset_name == 'mnist':
     d = (resolution, resolution, 1)
-    dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'supr-{sr_rate}', test=True)
+    dataset = MNISTRestore(subkey, 'datasets/mnist.npz', task=f'supr-{sr_rate}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
     dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
diff --git a/experiments/imgs/train.py b/experiments/imgs/train.py
index b58590c..05e6476 100644
--- a/experiments/imgs/train.py
+++ b/experiments/imgs/train.py
@@ -53,7 +53,7 @@ ts = jnp.linspace(0, T, nsteps + 1)
 key, subkey = jax.random.split(key)
 if dataset_name == 'mnist':
     d = (resolution, resolution, 1)
-    dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task='inpaint-15')
+    dataset = MNISTRestore(subkey, 'datasets/mnist.npz', task='inpaint-15')
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
     dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy', task='inpaint-15', resolution=resolution)
diff --git a/experiments/sb_imgs/supr.py b/experiments/sb_imgs/supr.py
index 1ee3441..71ccec7 100644
--- a/experiments/sb_imgs/supr.py
+++ b/experiments/sb_imgs/supr.py
@@ -51,7 +51,7 @@ ts = jnp.linspace(0, T, nsteps + 1)
 # Load dataset
 key, subkey = jax.random.split(key)
 d = (resolution, resolution, 1)
-dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'supr-{sr_rate}', test=True)
+dataset = MNISTRestore(subkey, 'datasets/mnist.npz', task=f'supr-{sr_rate}', test=True)
 dataset.sr_random = False
 
 # Define the forward noising process
diff --git a/experiments/sb_imgs/train.py b/experiments/sb_imgs/train.py
index 59b4203..1ac476d 100644
--- a/experiments/sb_imgs/train.py
+++ b/experiments/sb_imgs/train.py
@@ -54,7 +54,7 @@ ts = jnp.linspace(0, T, nsteps + 1)
 key, subkey = jax.random.split(key)
 if dataset_name == 'mnist':
     d = (resolution, resolution, 1)
-    dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task='inpaint-15')
+    dataset = MNISTRestore(subkey, 'datasets/mnist.npz', task='inpaint-15')
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
     dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy', task='inpaint-15', resolution=resolution)
diff --git a/experiments/tabulators/plot_img_coalescence.py b/experiments/tabulators/plot_img_coalescence.py
index 979b0ec..c18d35e 100644
--- a/experiments/tabulators/plot_img_coalescence.py
+++ b/experiments/tabulators/plot_img_coalescence.py
@@ -49,7 +49,7 @@ ts = jnp.linspace(0, T, nsteps + 1)
 key, subkey = jax.random.split(key)
 if dataset_name == 'mnist':
     d = (resolution, resolution, 1)
-    dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'inpaint-{rect_size}', test=True)
+    dataset = MNISTRestore(subkey, 'datasets/mnist.npz', task=f'inpaint-{rect_size}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
     dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
diff --git a/experiments/tabulators/plot_sb_imgs_anime.py b/experiments/tabulators/plot_sb_imgs_anime.py
index 500f8ee..5f3ffb3 100644
--- a/experiments/tabulators/plot_sb_imgs_anime.py
+++ b/experiments/tabulators/plot_sb_imgs_anime.py
@@ -28,7 +28,7 @@ key = jax.random.PRNGKey(666)
 key, data_key = jax.random.split(key)
 key, subkey = jax.random.split(key)
 dataset_name = 'mnist'
-dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'supr-4', test=True)
+dataset = MNISTRestore(subkey, 'datasets/mnist.npz', task=f'supr-4', test=True)
 dataset.sr_random = False
 x_shape = dataset.unobs_shape
 
-- 
2.43.0


From cf607b79590cda27a7701156d2288ccfa97cf799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 39/41] fix: run the bridge experiment with two particles too,
 which the figure shows

---
 experiments/run_sb_all.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experiments/run_sb_all.sh b/experiments/run_sb_all.sh
index e5ef3ec..b6ea2c3 100644
--- a/experiments/run_sb_all.sh
+++ b/experiments/run_sb_all.sh
@@ -2,11 +2,13 @@
 
 mkdir -p sb/results
 
+sbatch bashes/sb_filter_dardel.sh 2
 sbatch bashes/sb_filter_dardel.sh 4
 sbatch bashes/sb_filter_dardel.sh 8
 sbatch bashes/sb_filter_dardel.sh 16
 sbatch bashes/sb_filter_dardel.sh 32
 sbatch bashes/sb_filter_dardel.sh 64
+sbatch bashes/sb_gibbs_dardel.sh 2
 sbatch bashes/sb_gibbs_dardel.sh 4
 sbatch bashes/sb_gibbs_dardel.sh 8
 sbatch bashes/sb_gibbs_dardel.sh 16
-- 
2.43.0


From 5fa0b5ccc21368525600d73a06b662cb20d6635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 40/41] fix: the folders that the figures are saved in

---
 experiments/figs/.dummy     | 0
 experiments/tmp_figs/.dummy | 0
 2 files changed, 0 insertions(+), 0 deletions(-)
 create mode 100644 experiments/figs/.dummy
 create mode 100644 experiments/tmp_figs/.dummy

diff --git a/experiments/figs/.dummy b/experiments/figs/.dummy
new file mode 100644
index 0000000..e69de29
diff --git a/experiments/tmp_figs/.dummy b/experiments/tmp_figs/.dummy
new file mode 100644
index 0000000..e69de29
-- 
2.43.0


From f4fc12acfc04bf5330d585ed9530f1668c7bfd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 41/41] fix: cumulative weights that rounding made decrease, or
 increase at a zero weight

---
 fbs/samplers/csmc/resamplings.py | 3 ++-
 fbs/samplers/resampling.py       | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/fbs/samplers/csmc/resamplings.py b/fbs/samplers/csmc/resamplings.py
index 44c04f3..532c830 100644
--- a/fbs/samplers/csmc/resamplings.py
+++ b/fbs/samplers/csmc/resamplings.py
@@ -120,7 +120,8 @@ def systematic(key: JKey, weights: JArray, i: Optional[int] = 0, j: Optional[int
 def _standard_systematic(key: JKey, weights: JArray) -> JArray:
     N = weights.shape[0]
     u = (jnp.arange(N) + 1. - jax.random.uniform(key)) / N  # in (0, 1]
-    cum_weights = jnp.cumsum(weights)
+    # jnp.cumsum does not sum in order: rounding could make the sums decrease, or increase at a zero weight
+    cum_weights = jax.lax.cummax(jnp.where(weights > 0, jnp.cumsum(weights), 0.))
     indices = jnp.searchsorted(cum_weights, cum_weights[-1] * u)
     return indices
 
diff --git a/fbs/samplers/resampling.py b/fbs/samplers/resampling.py
index 67d2de4..02067be 100644
--- a/fbs/samplers/resampling.py
+++ b/fbs/samplers/resampling.py
@@ -46,7 +46,8 @@ def _systematic_or_stratified(weights: JArray, key: JKey, is_systematic: bool) -
         u = 1. - jax.random.uniform(key, ())  # in (0, 1], so as to never select a leading zero weight
     else:
         u = 1. - jax.random.uniform(key, (n,))
-    cum_weights = jnp.cumsum(weights)
+    # jnp.cumsum does not sum in order: rounding could make the sums decrease, or increase at a zero weight
+    cum_weights = jax.lax.cummax(jnp.where(weights > 0, jnp.cumsum(weights), 0.))
     idx = jnp.searchsorted(cum_weights,
                            cum_weights[-1] * ((jnp.arange(n, dtype=weights.dtype) + u) / n))
     return jnp.clip(idx, 0, n - 1)
@@ -64,7 +65,8 @@ def multinomial(weights: JArray, key: JKey) -> JArray:
     """Not tested.
     """
     n = weights.shape[0]
-    cum_weights = jnp.cumsum(weights)
+    # jnp.cumsum does not sum in order: rounding could make the sums decrease, or increase at a zero weight
+    cum_weights = jax.lax.cummax(jnp.where(weights > 0, jnp.cumsum(weights), 0.))
     idx = jnp.searchsorted(cum_weights,
                            cum_weights[-1] * _sorted_uniforms(n, key))
     return jnp.clip(idx, 0, n - 1)
-- 
2.43.0

