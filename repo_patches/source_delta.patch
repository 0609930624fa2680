From 07027f27f79348d3c752798bb88a91a13424fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 01/19] fix: HMC kinetic energy must be p^T M p / 2 for a
 non-diagonal condition matrix

---
 src/flowMC/resource/kernel/HMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index 9ed3e97..de1a064 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -118,7 +118,7 @@ class HMC(ProposalBase):
         def kinetic(
             p: Float[Array, " n_dim"], metric: Float[Array, " n_dim"]
         ) -> Float[Array, "1"]:
-            return 0.5 * (p**2 * metric).sum()
+            return 0.5 * jnp.dot(p, jnp.dot(metric, p))
 
         leapfrog_kernel = jax.tree_util.Partial(
             self.leapfrog_kernel, kinetic, potential
-- 
2.43.0


From 42b7eec9a684d8a7a4323c78ca5c00b1bd6675c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 02/19] fix: HMC with a scalar (default) condition matrix
 raised in the kernel

---
 src/flowMC/resource/kernel/HMC.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index de1a064..612debe 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -127,19 +127,24 @@ class HMC(ProposalBase):
 
         key1, key2 = jax.random.split(rng_key)
 
+        metric = jnp.asarray(self.condition_matrix)
+        if metric.ndim == 0:
+            # A scalar condition matrix stands for a multiple of the identity.
+            metric = metric * jnp.eye(position.shape[0])
+
         momentum: Float[Array, " n_dim"] = (
             jax.random.normal(key1, shape=position.shape) * self.condition_matrix**-0.5
         )
         momentum = jnp.dot(
             jax.random.normal(key1, shape=position.shape),
-            jnp.linalg.cholesky(jnp.linalg.inv(self.condition_matrix)).T,
+            jnp.linalg.cholesky(jnp.linalg.inv(metric)).T,
         )
-        H = -log_prob + kinetic(momentum, self.condition_matrix)
+        H = -log_prob + kinetic(momentum, metric)
         proposed_position, proposed_momentum = leapfrog_step(
-            position, momentum, data, self.condition_matrix
+            position, momentum, data, metric
         )
         proposed_PE = potential(proposed_position, data)
-        proposed_ham = proposed_PE + kinetic(proposed_momentum, self.condition_matrix)
+        proposed_ham = proposed_PE + kinetic(proposed_momentum, metric)
         log_acc = H - proposed_ham
         log_uniform = jnp.log(jax.random.uniform(key2))
 
-- 
2.43.0


From bd296c3fa6711fa982c5a771e9b3d5828f79841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 03/19] fix: MaskedCouplingRQSpline.inverse must undo the
 spline before the affine layer

---
 src/flowMC/resource/model/nf_model/rqSpline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index d101252..20a180f 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -479,9 +479,9 @@ class MaskedCouplingRQSpline(NFModel):
         def f(carry, data):
             x, log_det = carry
             layers = eqx.combine(data, statics)
-            x, log_det_i = layers[0].inverse(x, condition)
-            log_det += log_det_i
             x, log_det_i = layers[1].inverse(x, condition)
+            log_det += log_det_i
+            x, log_det_i = layers[0].inverse(x, condition)
             return (x, log_det + log_det_i), None
 
         (x, log_det), _ = jax.lax.scan(f, (x, log_det), dynamics, reverse=True)
-- 
2.43.0


From cef22532d1b48c87ba19b03f0cf4aac2d265fa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 04/19] fix: NF log_prob must include the Jacobian of the data
 whitening

---
 src/flowMC/resource/model/nf_model/realNVP.py  | 2 ++
 src/flowMC/resource/model/nf_model/rqSpline.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 38211ca..d34662d 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -220,6 +220,8 @@ class RealNVP(NFModel):
         log_det = log_det + jax.scipy.stats.multivariate_normal.logpdf(
             y, jnp.zeros(self.n_features), jnp.eye(self.n_features)
         )
+        # Jacobian of the whitening
+        log_det = log_det - 0.5 * jnp.log(jnp.diag(self.data_cov)).sum()
         return log_det
 
     def print_parameters(self):
diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index 20a180f..b2a6947 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -501,6 +501,8 @@ class MaskedCouplingRQSpline(NFModel):
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
         log_det = log_det + self.base_dist.log_prob(y)
+        # Jacobian of the whitening
+        log_det = log_det - 0.5 * jnp.log(jnp.diag(self.data_cov)).sum()
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From 339157255cc677107997e7f2522d72813f1317c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 05/19] fix: RealNVP.log_prob must use the base distribution it
 samples from

---
 src/flowMC/resource/model/nf_model/realNVP.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index d34662d..cf0d392 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -217,9 +217,7 @@ class RealNVP(NFModel):
         # TODO: Check whether taking away vmap hurts accuracy.
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
-        log_det = log_det + jax.scipy.stats.multivariate_normal.logpdf(
-            y, jnp.zeros(self.n_features), jnp.eye(self.n_features)
-        )
+        log_det = log_det + self.base_dist.log_prob(y)
         # Jacobian of the whitening
         log_det = log_det - 0.5 * jnp.log(jnp.diag(self.data_cov)).sum()
         return log_det
-- 
2.43.0


From 19fa49bdff189bd3c3394c441562dd1fd5837807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 06/19] fix: flow matching log_prob must evaluate the base
 density at the ODE solution

---
 src/flowMC/resource/model/flowmatching/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index 08935cb..f6ca599 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -90,7 +90,7 @@ class Solver(eqx.Module):
         x0, log_p = solve_ode(x1, dt)
         return (
             logpdf(
-                x1,
+                x0[-1],
                 mean=self.model.n_output * jnp.zeros(self.model.n_output),
                 cov=jnp.eye(self.model.n_output),
             )
-- 
2.43.0


From c4f71191980bba0583031c75673f034277908f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 07/19] fix: a thinning that does not divide n_steps overwrote
 recorded samples

---
 src/flowMC/resource_strategy_bundle/RQSpline_MALA.py    | 8 ++++----
 src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py | 8 ++++----
 src/flowMC/strategy/take_steps.py                       | 2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py b/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py
index 0af672b..c4f6afd 100644
--- a/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py
+++ b/src/flowMC/resource_strategy_bundle/RQSpline_MALA.py
@@ -55,12 +55,12 @@ class RQSpline_MALA_Bundle(ResourceStrategyBundle):
         verbose: bool = False,
     ):
         n_training_steps = (
-            n_local_steps // local_thinning * n_training_loops
-            + n_global_steps // global_thinning * n_training_loops
+            -(-n_local_steps // local_thinning) * n_training_loops
+            + -(-n_global_steps // global_thinning) * n_training_loops
         )
         n_production_steps = (
-            n_local_steps // local_thinning * n_production_loops
-            + n_global_steps // global_thinning * n_production_loops
+            -(-n_local_steps // local_thinning) * n_production_loops
+            + -(-n_global_steps // global_thinning) * n_production_loops
         )
         n_total_epochs = n_training_loops * n_epochs
 
diff --git a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
index af97302..ed04f1e 100644
--- a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
+++ b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
@@ -66,12 +66,12 @@ class RQSpline_MALA_PT_Bundle(ResourceStrategyBundle):
         verbose: bool = False,
     ):
         n_training_steps = (
-            n_local_steps // local_thinning * n_training_loops
-            + n_global_steps // global_thinning * n_training_loops
+            -(-n_local_steps // local_thinning) * n_training_loops
+            + -(-n_global_steps // global_thinning) * n_training_loops
         )
         n_production_steps = (
-            n_local_steps // local_thinning * n_production_loops
-            + n_global_steps // global_thinning * n_production_loops
+            -(-n_local_steps // local_thinning) * n_production_loops
+            + -(-n_global_steps // global_thinning) * n_production_loops
         )
         n_total_epochs = n_training_loops * n_epochs
 
diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 3d8c114..3f38cad 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -140,7 +140,7 @@ class TakeSteps(Strategy):
         position_buffer.update_buffer(positions, self.current_position)
         log_prob_buffer.update_buffer(log_probs, self.current_position)
         acceptance_buffer.update_buffer(do_accepts, self.current_position)
-        self.current_position += self.n_steps // self.thinning
+        self.current_position += positions.shape[1]
         return rng_key, resources, positions[:, -1]
 
 
-- 
2.43.0


From df8400a74a5abb876d2eb587264885c2ff9e4692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 08/19] fix: Buffer save/load lost the name type, cursor and
 cursor dimension

---
 src/flowMC/resource/buffers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/buffers.py b/src/flowMC/resource/buffers.py
index 0fc3f25..38dde16 100644
--- a/src/flowMC/resource/buffers.py
+++ b/src/flowMC/resource/buffers.py
@@ -54,11 +54,14 @@ class Buffer(Resource):
             path + self.name,
             name=self.name,
             data=self.data,
+            cursor=self.cursor,
+            cursor_dim=self.cursor_dim,
         )
 
     def load_resource(self: TBuffer, path: str) -> TBuffer:
         data = np.load(path)
         buffer: Float[Array, " ..."] = data["data"]
-        result = Buffer(data["name"], buffer.shape)
-        result.data = buffer
+        result = Buffer(str(data["name"]), buffer.shape, int(data["cursor_dim"]))
+        result.data = jnp.asarray(buffer)
+        result.cursor = int(data["cursor"])
         return result  # type: ignore
-- 
2.43.0


From e1080aac364eab1cf12d6a52374ab1ebd9f8a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 09/19] fix: State.load_resource could not read what
 save_resource wrote

---
 src/flowMC/resource/states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/states.py b/src/flowMC/resource/states.py
index ca75659..1664c85 100644
--- a/src/flowMC/resource/states.py
+++ b/src/flowMC/resource/states.py
@@ -58,6 +58,6 @@ class State(Resource):
         )
 
     def load_resource(self: TState, path: str) -> TState:
-        data = np.load(path)
-        result = State(data["name"], data["data"])
+        data = np.load(path, allow_pickle=True)
+        result = State(data["data"].item(), str(data["name"]))
         return result  # type: ignore
-- 
2.43.0


From 0e634eebea31d5b8348946143f34756d8e33988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 10/19] fix: parallel tempering dropped the tempered walkers
 outside training

---
 src/flowMC/strategy/parallel_tempering.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 0d70df1..14d18a6 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -120,10 +120,9 @@ class ParallelTempering(Strategy):
             print("Mean acceptance of exchange steps in PT: " + str(mean_accs))
 
         # Update the buffers
+        tempered_positions.update_buffer(positions[:, 1:], 0)
         if state.data["training"]:
 
-            tempered_positions.update_buffer(positions[:, 1:], 0)
-
             # Adapt the temperatures
             temperatures.update_buffer(
                 eqx.filter_jit(self._adapt_temperature)(temperatures.data, do_accepts),
-- 
2.43.0


From 71fd61f60be4769d76a8769e9259c533b740e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 11/19] fix: training discarded every epoch whose loss was
 above 1e9

---
 src/flowMC/resource/model/flowmatching/base.py | 2 +-
 src/flowMC/resource/model/nf_model/base.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index f6ca599..0e9c496 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -293,7 +293,7 @@ class FlowMatchingModel(eqx.Module, Resource):
 
         best_model = model = self
         best_state = state
-        best_loss = 1e9
+        best_loss = jnp.inf
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data[1], axis=0))
         model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data[1].T))
         for epoch in pbar:
diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index fa3029f..44f315b 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -183,7 +183,7 @@ class NFModel(eqx.Module, Resource):
 
         best_model = model = self
         best_state = state
-        best_loss = 1e9
+        best_loss = jnp.inf
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data, axis=0))
         model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data.T))
         for epoch in pbar:
-- 
2.43.0


From 452876bea02d54883c4b4bbe6149a941f8c7f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 12/19] fix: temperature adaptation could leave the ladder
 unsorted, infinite or NaN

---
 src/flowMC/strategy/parallel_tempering.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 14d18a6..1b5f20d 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -410,9 +410,6 @@ class ParallelTempering(Strategy):
 
         Returns:
             Float[Array, " n_temps"]: Updated temperatures.
-
-        TODO: The adaptation now let's the temperature to go above the maximum temperature.
-        Need to add a check to prevent this.
         """
         # Adapt the temperature based on the acceptance rate
 
@@ -425,10 +422,15 @@ class ParallelTempering(Strategy):
         )
         new_temperatures = temperatures
         for i in range(1, temperatures.shape[0] - 1):
+            # Stay below the maximum temperature. The exponent is bounded so that a
+            # closed gap cannot turn into 0 * inf.
             new_temperatures = new_temperatures.at[i].set(
-                new_temperatures[i - 1]
-                + (temperatures[i] - temperatures[i - 1])
-                * jnp.exp(damping_factor[i - 1])
+                jnp.minimum(
+                    new_temperatures[i - 1]
+                    + (temperatures[i] - temperatures[i - 1])
+                    * jnp.exp(jnp.minimum(damping_factor[i - 1], 50.0)),
+                    temperatures[-1],
+                )
             )
 
         # jax.debug.print("{} {} {} {}", temperatures, acceptance_rate, damping_factor, new_temperatures )
-- 
2.43.0


From 687412511f11d2899ceda272c5b1a7ff7c552f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 13/19] fix: weight decay moved the RealNVP coupling masks away
 from 0 and 1

---
 src/flowMC/resource/model/nf_model/realNVP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index cf0d392..5ca24f7 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -164,6 +164,8 @@ class RealNVP(NFModel):
             mask = jnp.ones(n_features)
             mask = mask.at[: int(n_features / 2)].set(0)
             mask = jax.lax.cond(i % 2 == 0, lambda x: 1 - x, lambda x: x, mask)
+            # Boolean, so that no optimizer can move the mask away from 0 and 1
+            mask = mask.astype(bool)
             scale_MLP = MLP([n_features, n_hidden, n_features], key=scale_subkey)
             shift_MLP = MLP([n_features, n_hidden, n_features], key=shift_subkey)
             return MaskedCouplingLayer(MLPAffine(scale_MLP, shift_MLP), mask)
-- 
2.43.0


From 2221ce8c0a8cf4fc8dccb49be21979f3e3763a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 14/19] fix: weight decay moved the whitening statistics away
 from the training data

---
 src/flowMC/resource/model/flowmatching/base.py | 9 ++++++++-
 src/flowMC/resource/model/nf_model/base.py     | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index 0e9c496..7689606 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -213,7 +213,14 @@ class FlowMatchingModel(eqx.Module, Resource):
         print("Compiling training step")
         loss, grads = model.loss_fn(x_t, t, dx_t)
         updates, state = optim.update(grads, state, model)  # type: ignore
-        model = eqx.apply_updates(model, updates)
+        updated = eqx.apply_updates(model, updates)
+        # The whitening statistics are data, not parameters: weight decay must not
+        # touch them.
+        model = eqx.tree_at(
+            lambda m: (m._data_mean, m._data_cov),
+            updated,
+            (model._data_mean, model._data_cov),
+        )
         return loss, model, state
 
     def train_epoch(
diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index 44f315b..0ddd216 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -121,7 +121,14 @@ class NFModel(eqx.Module, Resource):
         print("Compiling training step")
         loss, grads = model.loss_fn(x)
         updates, state = optim.update(grads, state, model)  # type: ignore
-        model = eqx.apply_updates(model, updates)
+        updated = eqx.apply_updates(model, updates)
+        # The whitening statistics are data, not parameters: weight decay must not
+        # touch them.
+        model = eqx.tree_at(
+            lambda m: (m._data_mean, m._data_cov),
+            updated,
+            (model._data_mean, model._data_cov),
+        )
         return loss, model, state
 
     def train_epoch(
-- 
2.43.0


From 401d398bcf85629fdb9c4cba7dff885258ae0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 15/19] fix: weight decay moved the mean and covariance of a
 base distribution that is not learnable

---
 src/flowMC/resource/model/nf_model/base.py | 25 ++++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index 0ddd216..6e70000 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -9,6 +9,7 @@ from jaxtyping import Array, Float, PRNGKeyArray
 from tqdm import tqdm, trange
 from typing_extensions import Self
 from flowMC.resource.base import Resource
+from flowMC.resource.model.common import Gaussian
 
 
 class NFModel(eqx.Module, Resource):
@@ -122,13 +123,23 @@ class NFModel(eqx.Module, Resource):
         loss, grads = model.loss_fn(x)
         updates, state = optim.update(grads, state, model)  # type: ignore
         updated = eqx.apply_updates(model, updates)
-        # The whitening statistics are data, not parameters: weight decay must not
-        # touch them.
-        model = eqx.tree_at(
-            lambda m: (m._data_mean, m._data_cov),
-            updated,
-            (model._data_mean, model._data_cov),
-        )
+
+        # The whitening statistics and base distributions that are not learnable are
+        # not parameters: weight decay must not touch them.
+        def gaussians(tree):
+            is_gaussian = lambda node: isinstance(node, Gaussian)  # noqa: E731
+            return filter(is_gaussian, jax.tree.leaves(tree, is_leaf=is_gaussian))
+
+        frozen = [not dist.learnable for dist in gaussians(model)]
+
+        def non_trainable(tree):
+            leaves = [tree._data_mean, tree._data_cov]
+            for dist, is_frozen in zip(gaussians(tree), frozen):
+                if is_frozen:
+                    leaves += [dist._mean, dist._cov]
+            return leaves
+
+        model = eqx.tree_at(non_trainable, updated, non_trainable(model))
         return loss, model, state
 
     def train_epoch(
-- 
2.43.0


From b5bf9d57468d5d6539e3c9ba1338a9e6ee5a7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 16/19] fix: to_precision turned the boolean coupling masks
 into trainable floats

---
 src/flowMC/resource/model/nf_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index 6e70000..01c23f5 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -253,7 +253,7 @@ class NFModel(eqx.Module, Resource):
                 f"Precision {precision} not supported.\
                 Choose from {precisions_dict.keys()}"
             )
-        dynamic_model, static_model = eqx.partition(self, eqx.is_array)
+        dynamic_model, static_model = eqx.partition(self, eqx.is_inexact_array)
         dynamic_model = jax.tree.map(
             lambda x: x.astype(precision_format), dynamic_model
         )
-- 
2.43.0


From 594ba31e58e8b7c0eace56dbf0f63e5e26b80050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 17/19] fix: a one-dimensional model did not load after
 training (covariance shape)

---
 src/flowMC/resource/model/flowmatching/base.py | 3 ++-
 src/flowMC/resource/model/nf_model/base.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index 7689606..d49df32 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -302,7 +302,8 @@ class FlowMatchingModel(eqx.Module, Resource):
         best_state = state
         best_loss = jnp.inf
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data[1], axis=0))
-        model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data[1].T))
+        cov = jnp.atleast_2d(jnp.cov(data[1].T))
+        model = eqx.tree_at(lambda m: m._data_cov, model, cov)
         for epoch in pbar:
             # Use a separate PRNG key to permute image data during shuffling
             rng, input_rng = jax.random.split(rng)
diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index 01c23f5..ae7b28c 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -203,7 +203,8 @@ class NFModel(eqx.Module, Resource):
         best_state = state
         best_loss = jnp.inf
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data, axis=0))
-        model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data.T))
+        cov = jnp.atleast_2d(jnp.cov(data.T))
+        model = eqx.tree_at(lambda m: m._data_cov, model, cov)
         for epoch in pbar:
             # Use a separate PRNG key to permute image data during shuffling
             rng, input_rng = jax.random.split(rng)
-- 
2.43.0


From b145f0aa78348da7e419fdc7f5ffc64bbe8dd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 18/19] fix: changing n_steps of a strategy after its first
 call was ignored

---
 src/flowMC/strategy/parallel_tempering.py | 6 +++++-
 src/flowMC/strategy/take_steps.py         | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 1b5f20d..d90dab1 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -95,7 +95,7 @@ class ParallelTempering(Strategy):
         subkey = jax.random.split(subkey, initial_position.shape[0])
         positions, log_probs, do_accepts = eqx.filter_jit(
             eqx.filter_vmap(
-                jax.tree_util.Partial(self._ensemble_step, kernel),
+                jax.tree_util.Partial(self._take_steps, self.n_steps, kernel),
                 in_axes=(0, 0, None, None, None),
             )
         )(
@@ -131,6 +131,10 @@ class ParallelTempering(Strategy):
 
         return rng_key, resources, positions[:, 0]
 
+    def _take_steps(self, n_steps: int, kernel: ProposalBase, *args):
+        # n_steps is an argument to be part of the key of the compilation cache.
+        return self._ensemble_step(kernel, *args)
+
     def _individual_step_body(
         self,
         kernel: ProposalBase,
diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 3f38cad..b69078b 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -54,6 +54,10 @@ class TakeSteps(Strategy):
     ):
         raise NotImplementedError
 
+    def _sample(self, n_steps: int, kernel: ProposalBase, *args):
+        # n_steps is an argument to be part of the key of the compilation cache.
+        return self.sample(kernel, *args)
+
     def set_current_position(self, current_position: int):
         self.current_position = current_position
 
@@ -113,7 +117,7 @@ class TakeSteps(Strategy):
                 initial_position_batch = initial_position[batch_slice]
                 positions_batch, log_probs_batch, do_accepts_batch = eqx.filter_jit(
                     eqx.filter_vmap(
-                        jax.tree_util.Partial(self.sample, kernel),
+                        jax.tree_util.Partial(self._sample, self.n_steps, kernel),
                         in_axes=(0, 0, None, None),
                     )
                 )(subkey_batch, initial_position_batch, logpdf, data)
@@ -126,7 +130,7 @@ class TakeSteps(Strategy):
         else:
             positions, log_probs, do_accepts = eqx.filter_jit(
                 eqx.filter_vmap(
-                    jax.tree_util.Partial(self.sample, kernel),
+                    jax.tree_util.Partial(self._sample, self.n_steps, kernel),
                     in_axes=(0, 0, None, None),
                 )
             )(subkey, initial_position, logpdf, data)
-- 
2.43.0


From e23f2d472aa80fdbd1dc032ff5dd342a5edc20d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 19/19] fix: global steps gave the target the caller's data
 with n_steps overwritten

---
 src/flowMC/strategy/take_steps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index b69078b..6f3a333 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -200,11 +200,15 @@ class TakeGroupSteps(TakeSteps):
         logpdf: LogPDF,
         data: dict,
     ):
+        def target(x: Float[Array, " n_dim"], _: dict) -> Float[Array, "1"]:
+            # n_steps is for the kernel: the target is given the data of the caller.
+            return logpdf(x, data)
+
         (positions, log_probs, do_accepts) = kernel.kernel(
             rng_key,
             initial_position,
             logpdf(initial_position, data),
-            logpdf,
+            target,
             {**data, "n_steps": self.n_steps},
         )
         return positions, log_probs, do_accepts
-- 
2.43.0

