From 8c0e9ba31662b7c43595c498599104019b62ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:43 +0000
Subject: [PATCH 01/45] fix: dispatch expect_and_grad of the unique-sample
 state

netket passes use_covariance as a keyword, so the overload with the weighted
gradient was never selected and the gradient ignored the sample counts.
---
 GPSKet/vqs/mc/mc_state/state_unique_samples.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_unique_samples.py b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
index da02888..8d6a7fb 100644
--- a/GPSKet/vqs/mc/mc_state/state_unique_samples.py
+++ b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
@@ -1,7 +1,7 @@
 import netket as nk
 import netket.jax as nkjax
 import jax.numpy as jnp
-from typing import Tuple, Optional, Callable, Literal, Any
+from typing import Tuple, Optional, Callable, Any
 from collections import defaultdict
 import numpy as np
 
@@ -127,11 +127,17 @@ class MCStateUniqueSamples(nk.vqs.MCState):
 def expect_and_grad(
     vstate: MCStateUniqueSamples,
     op: nk.operator.AbstractOperator,
-    use_covariance: Literal[True],
     chunk_size: Optional[int],
-    *,
-    mutable: Any
+    *args,
+    mutable: Any = False,
+    use_covariance: Optional[bool] = None
 ):
+    if use_covariance is None:
+        use_covariance = op.is_hermitian
+    if not use_covariance:
+        raise NotImplementedError(
+            "Gradients with unique samples are only implemented for hermitian operators."
+        )
     _, args = get_local_kernel_arguments(vstate, op)
     samples_and_counts = vstate.samples_with_counts
     if chunk_size is not None:
-- 
2.43.0


From 8a1b4bef725f753af9c6bfae8d3e6ae73bc2499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:43 +0000
Subject: [PATCH 02/45] fix: weight the unique-sample quantum geometric tensor
 by the sample counts

nk.jax.jacobian only applies the square root of the pdf to the rows when
_sqrt_rescale is set, without it every sample entered with weight one.
---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 13d4909..492e34f 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -71,6 +71,7 @@ def QGTJacobianDenseUniqueSamples(
         pdf=counts,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From db0bb49b65b8aac0c61c3150fcf3c7165ce224d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:29 +0000
Subject: [PATCH 03/45] fix: stratified-sampling state with netket's Pytree
 samplers

dataclasses.replace does not work on netket's samplers and sampler states, so the
state could not be constructed; use their own replace method.
---
 GPSKet/vqs/mc/mc_state/state_stratified_sampling.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
index 0c8a089..64b2ff9 100644
--- a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
+++ b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
@@ -17,8 +17,6 @@ from netket.utils.mpi import (
 
 from typing import Tuple
 
-from dataclasses import replace
-
 """ Implements a state with stratified sampling, splitting the evaluation of expectation values
 into a determinisitic evaluation over a fixed set, and a sampled estimate over the complement.
 At the moment this is only an implementation for quick testing which is very slow.
@@ -38,9 +36,9 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
     ):
         super().__init__(*args, **kwargs)
 
-        self.n_sweeps = self.sampler.n_sweeps
+        self.n_sweeps = self.sampler.sweep_size
 
-        self.sampler = replace(self.sampler, n_sweeps=1)
+        self.sampler = self.sampler.replace(sweep_size=1)
 
         self.deterministic_samples = jnp.array_split(deterministic_samples, _n_nodes)[
             _rank
@@ -73,7 +71,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             self.current_sample.append(samp)
             key = jax.random.split(key)[0]
         self.current_sample = jnp.array(np.array(self.current_sample))
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
         if not self.rand_norm:
             assert number_random_samples is None
@@ -103,7 +101,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             np.expand_dims(valid, -1), self.current_sample, old_sample
         )
 
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
     @property
     def samples_with_counts(self) -> Tuple[jnp.ndarray, jnp.ndarray]:
-- 
2.43.0


From d151b7e54c74c2a4b838834b82e3d992a03a23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:15 +0000
Subject: [PATCH 04/45] fix: pair local energies with their own samples in
 minSR

local_estimators returns an array of the shape of the samples (chains, length), its
transpose was flattened and so energies and log-derivatives belonged to different
samples whenever there was more than one chain and more than one sample per chain.
---
 GPSKet/driver/minSR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index 3606ab3..d35ca64 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -60,7 +60,7 @@ class minSRVMC(VMC):
         counts = counts.reshape((-1,))
 
         # Compute local energies and center them
-        loc_ens = self.state.local_estimators(self._ham).T.reshape(-1)
+        loc_ens = self.state.local_estimators(self._ham).reshape(-1)
         self._loss_stats = _statistics(loc_ens, counts)
         loc_ens_centered = (loc_ens - self._loss_stats.mean) * jnp.sqrt(counts)
 
-- 
2.43.0


From 2b8a2e442eacfbc6ec09be3657da5c288a710f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:03 +0000
Subject: [PATCH 05/45] fix: weight the minSR kernel and update by the sample
 weights

The centred log-derivatives entered the kernel without the square root of the sample
weights (nk.jax.jacobian does not apply the pdf unless _sqrt_rescale is set) while the
local energies carried it, so steps were scaled by 1/sqrt(n_samples) and wrong for
non-uniform weights.
---
 GPSKet/driver/minSR.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index d35ca64..2e1c144 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -97,7 +97,6 @@ class minSRVMC(VMC):
                 samples[i],
                 self.state.model_state,
                 mode=self.mode,
-                pdf=counts_i,
                 dense=True,
                 center=False,
             )
@@ -105,9 +104,9 @@ class minSRVMC(VMC):
                 O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
 
             if loss_grad is None:
-                loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i]))
+                loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, jnp.sqrt(counts_i) * loc_ens_centered[i]))
             else:
-                _loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i]), token=token)
+                _loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, jnp.sqrt(counts_i) * loc_ens_centered[i]), token=token)
                 loss_grad += _loss_grad
 
             if O_avg is None:
@@ -131,16 +130,14 @@ class minSRVMC(VMC):
                 samples[i],
                 self.state.model_state,
                 mode=self.mode,
-                pdf=counts[i],
                 dense=True,
                 center=False,
             )
+            if len(O_i.shape) == 3:
+                O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
+            O_i = (O_i - O_avg) * jnp.sqrt(counts[i])[:, np.newaxis]
             O_i, token = mpi.mpi_gather_jax(O_i, token=token)
             O_i = O_i.reshape((-1, *O_i.shape[2:]))
-            if mpi.rank == 0:
-                if len(O_i.shape) == 3:
-                    O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
-                O_i = O_i - O_avg
             for j in range(n_chunks):
                 idx_j = (
                     idx[j]
@@ -155,16 +152,15 @@ class minSRVMC(VMC):
                     samples[j],
                     self.state.model_state,
                     mode=self.mode,
-                    pdf=counts[j],
                     dense=True,
                     center=False,
                 )
+                if len(O_j.shape) == 3:
+                    O_j = O_j[:, 0, :] + 1.0j * O_j[:, 1, :]
+                O_j = (O_j - O_avg) * jnp.sqrt(counts[j])[:, np.newaxis]
                 O_j, token = mpi.mpi_gather_jax(O_j, token=token)
                 O_j = O_j.reshape((-1, *O_j.shape[2:]))
                 if mpi.rank == 0:
-                    if len(O_j.shape) == 3:
-                        O_j = O_j[:, 0, :] + 1.0j * O_j[:, 1, :]
-                    O_j = O_j - O_avg
                     ii, jj = np.meshgrid(idx_i, idx_j, indexing="ij")
                     OO = OO.at[ii, jj].set(O_i.dot(O_j.conj().T))
 
@@ -195,7 +191,6 @@ class minSRVMC(VMC):
                 samples[i],
                 self.state.model_state,
                 mode=self.mode,
-                pdf=counts[i],
                 dense=True,
                 center=False,
             )
@@ -203,7 +198,7 @@ class minSRVMC(VMC):
             if len(O_i.shape) == 3:
                 O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
 
-            O_i = O_i - O_avg
+            O_i = (O_i - O_avg) * jnp.sqrt(counts[i])[:, np.newaxis]
 
             if dense_update is None:
                 dense_update = mpi.mpi_sum_jax(O_i.conj().T.dot(OO_epsilon[i]))[0]
-- 
2.43.0


From ba1140839c5d60d158c3b5a2866ed8eb05e6c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:55 +0000
Subject: [PATCH 06/45] fix: VMC_SRRMSProp on more than one MPI rank

Ranks other than the root do not receive the gathered samples, they reshaped their own
ones as if they did (fails in complex mode) and entered the broadcast of the update with
a buffer of the length of the samples instead of the parameters.
---
 GPSKet/driver/VMC_SRRMSProp.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/GPSKet/driver/VMC_SRRMSProp.py b/GPSKet/driver/VMC_SRRMSProp.py
index 50f8d0b..0d8a012 100644
--- a/GPSKet/driver/VMC_SRRMSProp.py
+++ b/GPSKet/driver/VMC_SRRMSProp.py
@@ -27,28 +27,30 @@ def SRRMSProp(
         e_mean = nkstats.mean(local_energies)
     local_energies_centered = -2*jnp.conj(local_energies - e_mean) * jnp.sqrt(N_mc)
     local_energies_centered, token = mpi.mpi_gather_jax(local_energies_centered)
-    local_energies_centered = local_energies_centered.reshape(-1, *local_energies_centered.shape[2:])
 
     # Center jacobians
     O_mean = nkstats.mean(O_L, axis=0)
     O_L = (O_L - O_mean) * jnp.sqrt(N_mc)
     O_L, token = mpi.mpi_gather_jax(O_L, token=token)
-    O_L = O_L.reshape(-1, *O_L.shape[2:])
-
-    # Convert quantities to dense format
-    if mode == "complex":
-        O_L = jnp.transpose(O_L, (1, 0, 2)).reshape(-1, O_L.shape[-1])
-        local_energies_centered = jnp.concatenate(
-            (jnp.real(local_energies_centered), -jnp.imag(local_energies_centered)),
-            axis=-1,
-            dtype=jnp.float64
-        )
-    elif mode == "real":
-        local_energies_centered = local_energies_centered.real
-    else:
-        raise NotImplementedError()
 
+    # The gathered quantities are only available on the root rank
     if mpi.rank == 0:
+        local_energies_centered = local_energies_centered.reshape(-1, *local_energies_centered.shape[2:])
+        O_L = O_L.reshape(-1, *O_L.shape[2:])
+
+        # Convert quantities to dense format
+        if mode == "complex":
+            O_L = jnp.transpose(O_L, (1, 0, 2)).reshape(-1, O_L.shape[-1])
+            local_energies_centered = jnp.concatenate(
+                (jnp.real(local_energies_centered), -jnp.imag(local_energies_centered)),
+                axis=-1,
+                dtype=jnp.float64
+            )
+        elif mode == "real":
+            local_energies_centered = local_energies_centered.real
+        else:
+            raise NotImplementedError()
+
         # Compute gradient and update EMA of squared gradient
         gradient = O_L.T @ local_energies_centered
         ema = decay * ema + (1. - decay) * gradient**2
@@ -64,7 +66,7 @@ def SRRMSProp(
         if isinstance(updates, tuple):
             updates, _ = updates
     else:
-        updates = jnp.zeros(local_energies_centered.shape[0], dtype=jnp.float64)
+        updates = jnp.zeros(ema.shape, dtype=jnp.float64)
     updates, token = mpi.mpi_bcast_jax(updates, token=token, root=0)
     
     # If complex mode and we have complex parameters, we need
-- 
2.43.0


From 41457413bf694bd2649ea923d17ffa0fc4f91b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:55 +0000
Subject: [PATCH 07/45] fix: gradient of the state fitting loss over MPI ranks

The loss is averaged over the ranks but its gradient was summed, so the step size grew
with the number of ranks.
---
 GPSKet/driver/autoreg_state_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/autoreg_state_fitting.py b/GPSKet/driver/autoreg_state_fitting.py
index 162737f..ce7f1af 100644
--- a/GPSKet/driver/autoreg_state_fitting.py
+++ b/GPSKet/driver/autoreg_state_fitting.py
@@ -90,6 +90,6 @@ def _loss_and_grad(params, model_state, logpsi, mini_batch):
         params, model_state, logpsi, mini_batch
     )
     loss, _ = mpi.mpi_mean_jax(loss)
-    grad = jax.tree_util.tree_map(lambda p: mpi.mpi_sum_jax(p)[0], grad)
+    grad = jax.tree_util.tree_map(lambda p: mpi.mpi_mean_jax(p)[0], grad)
     grad = jax.tree_util.tree_map(jnp.conj, grad)
     return loss, grad
-- 
2.43.0


From d8e32f5770a49f31367a44d72a9352b493bce2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:55 +0000
Subject: [PATCH 08/45] fix: average instead of sum over samples in
 QGTJacobianDenseRMSProp

nk.jax.jacobian only divides by the square root of the number of samples (or applies the
pdf) when _sqrt_rescale is set.
---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 62c0124..50da6bb 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -84,6 +84,7 @@ def QGTJacobianDenseRMSProp(
         chunk_size=chunk_size,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From 9fc4942a5716103a0d9ee83a1f7084c90d5c083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:08 +0000
Subject: [PATCH 09/45] fix: order the collectives of VMC_SRRMSProp by one
 token

The average of the log-derivatives was not tied to the token of the gathers, so the
root rank (whose compiled program differs) could call them in a different order than
the other ranks and the job would hang.
---
 GPSKet/driver/VMC_SRRMSProp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/VMC_SRRMSProp.py b/GPSKet/driver/VMC_SRRMSProp.py
index 0d8a012..a20fca5 100644
--- a/GPSKet/driver/VMC_SRRMSProp.py
+++ b/GPSKet/driver/VMC_SRRMSProp.py
@@ -29,7 +29,7 @@ def SRRMSProp(
     local_energies_centered, token = mpi.mpi_gather_jax(local_energies_centered)
 
     # Center jacobians
-    O_mean = nkstats.mean(O_L, axis=0)
+    O_mean, token = mpi.mpi_mean_jax(O_L.mean(axis=0), token=token)
     O_L = (O_L - O_mean) * jnp.sqrt(N_mc)
     O_L, token = mpi.mpi_gather_jax(O_L, token=token)
 
-- 
2.43.0


From f3a4008e43d6550e90aa13fc61f7079525cc6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:01 +0000
Subject: [PATCH 10/45] fix: incremental CPDBackflow amplitudes when a site is
 listed twice

---
 GPSKet/models/cpd_backflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/cpd_backflow.py b/GPSKet/models/cpd_backflow.py
index 8bf41b1..73c5dfd 100644
--- a/GPSKet/models/cpd_backflow.py
+++ b/GPSKet/models/cpd_backflow.py
@@ -158,6 +158,7 @@ class CPDBackflow(nn.Module):
                     jnp.arange(update_sites.shape[0]),
                     reverse=True,
                 )[0]
+            occ_new = n
             n = jax.vmap(update_fun, in_axes=(0, 0, 0), out_axes=0)(
                 saved_configs.value, update_sites, n
             )
@@ -179,7 +180,6 @@ class CPDBackflow(nn.Module):
         # Compute orbitals and log-determinant
         if update_sites is not None:
             site_products_old = saved_site_products.value
-            occ_new = jax.vmap(jnp.take, in_axes=(0, 0))(n, update_sites)
             occ_old = jax.vmap(jnp.take, in_axes=(0, 0))(saved_configs.value, update_sites)
             orbitals, site_products = CPD_with_cache_batched(
                 self._epsilon, site_products_old, occ_new, occ_old, update_sites) # (B, L, N), (B, L, N, M)
-- 
2.43.0


From 9c86c8f372c3ba905af606d85f5cfc4f776d4da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:22 +0000
Subject: [PATCH 11/45] fix: positional arguments of jnp.where in the
 PlaquetteqGPS update

---
 GPSKet/models/plaquetteqGPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 73bf554..1019fcb 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -142,13 +142,13 @@ class PlaquetteqGPS(nn.Module):
                     valid_elements = transformed_sites != -1
                     update = jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[new_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[new_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     update /= jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[old_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[old_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     return sp_old * update
 
-- 
2.43.0


From eb73f23825710205d5abdd17f4c767527b2cc5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:29 +0000
Subject: [PATCH 12/45] fix: cached configuration of PlaquetteqGPS when a site
 is listed twice

---
 GPSKet/models/plaquetteqGPS.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 1019fcb..b225c0f 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -179,7 +179,16 @@ class PlaquetteqGPS(nn.Module):
             if update_sites is not None:
 
                 def update_fun(saved_config, update_sites, occs):
-                    return saved_config.at[update_sites].set(occs)
+                    # reversed, as the first entry of a repeated site counts
+                    def scan_fun(carry, count):
+                        return (carry.at[update_sites[count]].set(occs[count]), None)
+
+                    return jax.lax.scan(
+                        scan_fun,
+                        saved_config,
+                        jnp.arange(update_sites.shape[0]),
+                        reverse=True,
+                    )[0]
 
                 indices_save.value = jax.vmap(
                     update_fun, in_axes=(0, 0, 0), out_axes=0
-- 
2.43.0


From a6068b6fe78241396dabd3554c31dfc957330994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:09 +0000
Subject: [PATCH 13/45] fix: count accepted moves per chain in
 MetropolisFastSampler

---
 GPSKet/sampler/metropolis_fast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 06f8060..3231178 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -69,7 +69,7 @@ class MetropolisFastSampler(MetropolisSampler):
                 update, new_intermediates_cache, s["intermediates_cache"]
             )
 
-            s["accepted"] += do_accept.sum()
+            s["accepted"] += do_accept
 
             s["log_prob"] = jax.numpy.where(
                 do_accept.reshape(-1), proposal_log_prob, s["log_prob"]
-- 
2.43.0


From 12a5a8a0e9c80268049bd6f210d3e31f5ff5e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:21 +0000
Subject: [PATCH 14/45] fix: MetropolisFastExchange with netket's ExchangeRule

---
 GPSKet/sampler/metropolis_fast.py            | 2 +-
 GPSKet/sampler/rules/exchange_with_update.py | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 3231178..57603c1 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -113,6 +113,6 @@ def MetropolisFastExchange(
     if clusters is None:
         assert graph is not None
         clusters = compute_clusters(graph, d_max)
-    exchange_rule_with_updates = ExchangeRuleWithUpdate(jnp.array(clusters))
+    exchange_rule_with_updates = ExchangeRuleWithUpdate(clusters=clusters)
 
     return MetropolisFastSampler(hilbert, exchange_rule_with_updates, *args, **kwargs)
diff --git a/GPSKet/sampler/rules/exchange_with_update.py b/GPSKet/sampler/rules/exchange_with_update.py
index 8dbdf5f..8d9378b 100644
--- a/GPSKet/sampler/rules/exchange_with_update.py
+++ b/GPSKet/sampler/rules/exchange_with_update.py
@@ -1,17 +1,13 @@
 import jax
 import jax.numpy as jnp
-from flax import struct
-from netket.sampler.rules.exchange import ExchangeRule_
+from netket.sampler.rules.exchange import ExchangeRule
 
 
-@struct.dataclass
-class ExchangeRuleWithUpdate(ExchangeRule_):
+class ExchangeRuleWithUpdate(ExchangeRule):
     """
     Exchange Update rule which also returns the list of affected sites which is required for the fast metropolis sampler
     """
 
-    returns_updates: bool = True
-
     def transition(rule, sampler, machine, parameters, state, key, σ):
         n_chains = σ.shape[0]
 
-- 
2.43.0


From b59932d4608571716d98f21d68aeceb464c58832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:15 +0000
Subject: [PATCH 15/45] fix: batch axis of the cached context products of
 ARqGPSFull

---
 GPSKet/models/autoreg_qGPS_full.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index b4928c5..d815ce8 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -214,7 +214,9 @@ class ARqGPSFull(AbstractARqGPS):
                     cont_prod.value for cont_prod in self._saved_context_product
                 ]
             else:
-                old_contexts = self._saved_context_product.value
+                old_contexts = jnp.swapaxes(
+                    self._saved_context_product.value, 0, 1
+                )  # (L, B, M, T)
 
             log_psi, context_products = jax.vmap(
                 _conditionals, in_axes=(None, -1, -1, -1), out_axes=(-1, -1)
@@ -249,7 +251,10 @@ class ARqGPSFull(AbstractARqGPS):
                 for i in range(len(context_products)):
                     self._saved_context_product[i].value = context_products[i]
             else:
-                self._saved_context_product.value = context_products
+                # The batch is the leading axis of everything in the cache
+                self._saved_context_product.value = jnp.swapaxes(
+                    context_products, 0, 1
+                )  # (B, L, M, T)
             self._saved_configs.value = full_samples
 
         return log_psi_symm  # (B,)
-- 
2.43.0


From e9345605a23c50558866ec68d24c90443181befc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:36 +0000
Subject: [PATCH 16/45] fix: same factorisation on all ranks in the supervised
 fits

A Cholesky decomposition which fails on some of the ranks only left the ranks with different
factors and made them take different branches afterwards.
---
 GPSKet/supervised/supervised_qgps.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 85bcbe4..09865c6 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -290,19 +290,26 @@ class QGPSLearning:
                     lower=True,
                 )
                 weights = sp.linalg.cho_solve((L, True), self.y[self.active_elements])
-                self.Sinv = None
                 self.cholesky = True
-                # This is just to ensure that each rank does the same update
-                _MPI_comm.Bcast(weights)
-                _MPI_comm.Bcast(self.Sinv_L)
             except:
                 self.Sinv = sp.linalg.pinvh(
                     self.KtK_alpha[np.ix_(self.active_elements, self.active_elements)]
                 )
                 weights = self.Sinv.dot(self.y[self.active_elements])
                 self.cholesky = False
-                _MPI_comm.Bcast(weights)
-                _MPI_comm.Bcast(self.Sinv)
+            # This is just to ensure that each rank does the same update,
+            # also if the decomposition only succeeded on some of the ranks
+            factor = np.ascontiguousarray(
+                self.Sinv_L if self.cholesky else self.Sinv
+            )
+            self.cholesky = _MPI_comm.bcast(self.cholesky, root=0)
+            _MPI_comm.Bcast(weights)
+            _MPI_comm.Bcast(factor)
+            if self.cholesky:
+                self.Sinv_L = factor
+                self.Sinv = None
+            else:
+                self.Sinv = factor
 
         if self.weights is None:
             if not self.complex_expand and self.epsilon.dtype == complex:
@@ -1523,6 +1530,8 @@ class QGPSGenLinMod(QGPSLearningExp):
                 update_directions = -self.Sinv.dot(self.grad[self.active_elements])
                 self.cholesky = False
 
+            # The memory layout depends on how the inverse was obtained
+            self.Sinv = np.ascontiguousarray(self.Sinv)
             _MPI_comm.Bcast(self.Sinv, root=0)
             _MPI_comm.Bcast(update_directions, root=0)
             self.cholesky = _MPI_comm.bcast(self.cholesky, root=0)
-- 
2.43.0


From e05f8921f116a36735fd1e95851d7396039395a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:36 +0000
Subject: [PATCH 17/45] fix: leave the caller's weightings unchanged in
 QGPSGenLinMod

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 09865c6..a8b4772 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1324,7 +1324,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             self.weightings = np.ones(len(self.exp_amps))
         else:
             self.weightings = weightings
-        self.weightings *= abs(prefactor) ** 2
+        self.weightings = self.weightings * abs(prefactor) ** 2
         self.N_data = _mpi_sum(np.sum(self.weightings))
         if self.noise_tilde != 0.0:
             self.beta = 1 / self.noise_tilde
-- 
2.43.0


From 088b3fd37e6b827e54e985faf80f47b6a91359f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:36 +0000
Subject: [PATCH 18/45] fix: infinities in the growing RVM fit (removed from
 numpy 2)

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index a8b4772..18a2bc7 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -996,7 +996,7 @@ class QGPSLearningExp(QGPSLearning):
         )
 
         deltaL[delete] = abs(Qdel) ** 2 / (Sdel - Adel) - np.log(1 - Sdel / Adel)
-        deltaL = np.nan_to_num(deltaL, nan=np.NINF, posinf=np.NINF, neginf=np.NINF)
+        deltaL = np.nan_to_num(deltaL, nan=-np.inf, posinf=-np.inf, neginf=-np.inf)
 
         # find feature which caused largest change in likelihood
 
@@ -1016,7 +1016,7 @@ class QGPSLearningExp(QGPSLearning):
                 self.active_elements[feature_index] == True
                 and np.sum(self.active_elements) >= 2
             ):
-                alpha[feature_index] = np.PINF
+                alpha[feature_index] = np.inf
         self.alpha_mat_ref_sites = alpha
 
         return
-- 
2.43.0


From 364c58a24e599ccd714c7b0667cfbe888ae52cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:05 +0000
Subject: [PATCH 19/45] fix: supervised models keep their own copy of
 configurations and reference sites

The caches were considered valid after the caller overwrote an array passed earlier.
---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 18a2bc7..b5bcea6 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -100,7 +100,7 @@ class QGPSLearning:
                 self.epsilon.shape[1], dtype=int
             )
         else:
-            self._ref_sites = ref_sites_or_site
+            self._ref_sites = np.array(ref_sites_or_site)
         self._ref_sites_incr_dim = np.tile(
             self._ref_sites, (self.epsilon.shape[0], 1)
         ).T.flatten()
@@ -226,7 +226,7 @@ class QGPSLearning:
                 recompute_site_prod = True
 
             if recompute_site_prod:
-                self.confs = confs
+                self.confs = np.array(confs)
                 self.compute_site_prod()
                 self.K_per_sym = None
 
-- 
2.43.0


From 70eb18fd210fad92b6f37a6b173ff296b86760db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:06 +0000
Subject: [PATCH 20/45] fix: restore the samples if the evaluation of an
 imaginary time step fails

---
 GPSKet/supervised/imag_time_step.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 810a829..2bf6437 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -22,10 +22,12 @@ class ImagTimeStep:
         # This is a little bit hacky, the interface should probably be improved at one point
         old_samples = self.vstate._samples
         self.vstate._samples = samples
-        loc_ens = self.vstate.local_estimators(
-            self.hamiltonian, chunk_size=self.vstate.chunk_size
-        )
-        self.vstate._samples = old_samples
+        try:
+            loc_ens = self.vstate.local_estimators(
+                self.hamiltonian, chunk_size=self.vstate.chunk_size
+            )
+        finally:
+            self.vstate._samples = old_samples
         return loc_ens
 
     def log_imag_time_step(self, tau, samples):
-- 
2.43.0


From 39a2eac29c2aeb19912d6535b88d0a0ac7e31b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:03 +0000
Subject: [PATCH 21/45] fix: get_imag_time_step_vstate leaves the given state
 untouched and works with FermiHubbardOnTheFly

The kernel arguments were captured as numpy arrays, which cannot be indexed while tracing, and
obtaining them made the given state generate samples.
---
 GPSKet/supervised/imag_time_step.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 2bf6437..585793c 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -55,7 +55,12 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
         The variational state with updated model (based on a single imaginary time step)
     """
     log_model = vstate._apply_fun
-    _, args = get_local_kernel_arguments(vstate, hamiltonian)
+    new_vstate = copy.deepcopy(vstate)
+    # The arguments of the supported Hamiltonians do not depend on the samples,
+    # this avoids that the given state generates new ones
+    new_vstate._samples = vstate.hilbert.random_state(jax.random.PRNGKey(0), 1)
+    _, args = get_local_kernel_arguments(new_vstate, hamiltonian)
+    args = jax.tree_util.tree_map(jnp.asarray, args)
     if vstate.chunk_size is None:
         local_estimator_fun = get_local_kernel(vstate, hamiltonian)
     else:
@@ -68,7 +73,6 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
         log_amps = log_model(pars, samps)
         return log_amps + jnp.log(1 / tau - 1 * loc_ens) + jnp.log(tau)
 
-    new_vstate = copy.deepcopy(vstate)
     new_vstate._apply_fun = imag_time_model_log_amp
     new_vstate._model = wrap_afun(imag_time_model_log_amp)
     new_vstate.model_state = {"tau": tau, **new_vstate.model_state}
-- 
2.43.0


From 8418ac4c8c3d154825b45213058b28bb046693a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:10 +0000
Subject: [PATCH 22/45] fix: nested imaginary time steps keep their own
 propagation times

---
 GPSKet/supervised/imag_time_step.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 585793c..3318978 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -66,8 +66,13 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     else:
         local_estimator_fun = get_local_kernel(vstate, hamiltonian, vstate.chunk_size)
 
+    # Each (nested) time step keeps its own propagation time
+    tau_key = "tau"
+    while tau_key in vstate.model_state:
+        tau_key += "_outer"
+
     def imag_time_model_log_amp(model_pars, samples):
-        pars, tau = freeze(model_pars).pop("tau")
+        pars, tau = freeze(model_pars).pop(tau_key)
         samps = samples.reshape((-1, samples.shape[-1]))
         loc_ens = local_estimator_fun(log_model, pars, samps, args)
         log_amps = log_model(pars, samps)
@@ -75,5 +80,5 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
 
     new_vstate._apply_fun = imag_time_model_log_amp
     new_vstate._model = wrap_afun(imag_time_model_log_amp)
-    new_vstate.model_state = {"tau": tau, **new_vstate.model_state}
+    new_vstate.model_state = {tau_key: tau, **new_vstate.model_state}
     return new_vstate
-- 
2.43.0


From ffd04954ecc4def3c8d541df2b072c3b65545b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:16 +0000
Subject: [PATCH 23/45] fix: the H2O dataset cache is never left incomplete by
 interrupted or concurrent runs

---
 GPSKet/datasets/h2o.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/GPSKet/datasets/h2o.py b/GPSKet/datasets/h2o.py
index 391c9e0..dc12bf8 100644
--- a/GPSKet/datasets/h2o.py
+++ b/GPSKet/datasets/h2o.py
@@ -1,4 +1,5 @@
 import os
+import uuid
 import numpy as np
 from typing import Optional, Tuple
 from netket.utils.types import Array
@@ -8,6 +9,20 @@ from pyscf import scf, gto, ao2mo, fci, ci, lo
 _DATA = "/tmp/GPSKet_data/"
 
 
+def _save(path, array):
+    # Write to a temporary file first, so that an interrupted or concurrent run
+    # never leaves an incomplete file at `path`
+    tmp_path = f"{path}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(tmp_path, "wb") as f:
+            np.save(f, array)
+        os.replace(tmp_path, path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
+
+
 def _H2O_raw(basis, method, datapath):
     mol = gto.Mole()
 
@@ -29,8 +44,7 @@ def _H2O_raw(basis, method, datapath):
     norb = myhf.mo_coeff.shape[1]
     print("Number of molecular orbitals: ", norb)
 
-    if not os.path.exists(datapath):
-        os.makedirs(datapath)
+    os.makedirs(datapath, exist_ok=True)
     dsid = f"{basis}_{method}"
 
     if not os.path.exists(os.path.join(datapath, f"h1_{dsid}.npy")):
@@ -55,8 +69,9 @@ def _H2O_raw(basis, method, datapath):
         # Find the hamiltonian in the local basis
         h1 = np.linalg.multi_dot((loc_coeff.T, myhf.get_hcore(), loc_coeff))
         h2 = ao2mo.restore(1, ao2mo.kernel(mol, loc_coeff), norb)
-        np.save(os.path.join(datapath, f"h1_{dsid}.npy"), h1)
-        np.save(os.path.join(datapath, f"h2_{dsid}.npy"), h2)
+        # h1 is saved last because its presence marks the integrals as complete
+        _save(os.path.join(datapath, f"h2_{dsid}.npy"), h2)
+        _save(os.path.join(datapath, f"h1_{dsid}.npy"), h1)
     else:
         h1 = np.load(os.path.join(datapath, f"h1_{dsid}.npy"))
         h2 = np.load(os.path.join(datapath, f"h2_{dsid}.npy"))
@@ -98,12 +113,9 @@ def _H2O_raw(basis, method, datapath):
                 amps.append(c[i, j])
         all_configurations = np.array(configs)
         all_amplitudes = np.array(amps)
-        np.save(
-            os.path.join(datapath, f"all_configs_H2O_{dsid}.npy"), all_configurations
-        )
-        np.save(
-            os.path.join(datapath, f"all_amplitudes_H2O_{dsid}.npy"), all_amplitudes
-        )
+        # The configurations are saved last because their presence marks the dataset as complete
+        _save(os.path.join(datapath, f"all_amplitudes_H2O_{dsid}.npy"), all_amplitudes)
+        _save(os.path.join(datapath, f"all_configs_H2O_{dsid}.npy"), all_configurations)
     else:
         all_configurations = np.load(
             os.path.join(datapath, f"all_configs_H2O_{dsid}.npy")
-- 
2.43.0


From f6cdb9e5c7c512fec3b45a1eb2eda3d61cbe689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:54 +0000
Subject: [PATCH 24/45] fix: generalised Hartree-Fock reference orbitals of
 open-shell molecules

---
 scripts/cpd-backflow/cpd_backflow/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index cae23f2..842d601 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -237,7 +237,7 @@ def get_hf_orbitals_from_file(config: ConfigDict, n_elec: Tuple[int, int], workd
                 hf_orbitals_b = hf_orbitals[:, :n_elec[1]]
                 orbitals = np.zeros((2*norb, nelec))
                 orbitals[:norb, :n_elec[0]] = hf_orbitals_a
-                orbitals[norb:, n_elec[1]:] = hf_orbitals_b
+                orbitals[norb:, n_elec[0]:] = hf_orbitals_b
             else:
                 nelec = hf_orbitals.shape[1]*2
                 orbitals = np.zeros((2*norb, nelec))
-- 
2.43.0


From c04b07dc6091df0d0ae04ca8f23d9e41cc343f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:12 +0000
Subject: [PATCH 25/45] fix: interrupted runs never leave incomplete molecular
 integral files in the work directory

---
 scripts/cpd-backflow/cpd_backflow/systems.py | 12 +++++++-----
 scripts/cpd-backflow/cpd_backflow/utils.py   | 19 +++++++++++++++++++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/systems.py b/scripts/cpd-backflow/cpd_backflow/systems.py
index 8699025..c6d35f1 100644
--- a/scripts/cpd-backflow/cpd_backflow/systems.py
+++ b/scripts/cpd-backflow/cpd_backflow/systems.py
@@ -9,6 +9,7 @@ from netket.utils.mpi import MPI_py_comm as _MPI_comm
 from netket.operator import AbstractOperator
 from GPSKet.operator.hamiltonian import AbInitioHamiltonianOnTheFly, AbInitioHamiltonianSparse
 from GPSKet.operator.hamiltonian import FermiHubbardOnTheFly
+from cpd_backflow.utils import atomic_open
 from pyscf import scf, gto, ao2mo, lo
 
 
@@ -153,10 +154,10 @@ def get_molecular_system(config: ConfigDict, workdir: Optional[str]=None, store_
             if config.get('pruning_threshold', None) is not None and config.pruning_threshold != 0.0:
                 h1[abs(h1) < config.pruning_threshold] = 0.0
                 h2[abs(h2) < config.pruning_threshold] = 0.0
-            np.save(basis_path, basis)
-            np.save(h1_path, h1)
-            np.save(h2_path, h2)
-            np.save(hf_orbitals_path, hf_orbitals)
+            # The last file to be written marks the whole set as complete
+            for path, array in ((basis_path, basis), (h1_path, h1), (h2_path, h2), (hf_orbitals_path, hf_orbitals)):
+                with atomic_open(path, "wb") as f:
+                    np.save(f, array)
         # Store exchange matrix, if necessary
         if store_exchange:
             exchange_path = os.path.join(workdir, "exchange.npy")
@@ -168,7 +169,8 @@ def get_molecular_system(config: ConfigDict, workdir: Optional[str]=None, store_
                 # Transform to a local orbital basis, if necessary
                 if 'local' in config.basis:
                     em = np.linalg.multi_dot((basis.T, em, basis))
-                np.save(exchange_path, em)
+                with atomic_open(exchange_path, "wb") as f:
+                    np.save(f, em)
     else:
         h1 = None
         h2 = None
diff --git a/scripts/cpd-backflow/cpd_backflow/utils.py b/scripts/cpd-backflow/cpd_backflow/utils.py
index b095d07..a53f3cd 100644
--- a/scripts/cpd-backflow/cpd_backflow/utils.py
+++ b/scripts/cpd-backflow/cpd_backflow/utils.py
@@ -1,12 +1,31 @@
 import os
 import yaml
 import csv
+import uuid
+from contextlib import contextmanager
 from timeit import default_timer as timer
 from datetime import timedelta, time
 from netket.utils.types import PyTree
 from flax import serialization
 
 
+@contextmanager
+def atomic_open(path, mode="w"):
+    """
+    Open a file for writing that only replaces `path` once it has been written completely,
+    so that a run which is killed or fails never leaves an incomplete file behind
+    """
+    tmp_path = f"{path}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(tmp_path, mode) as f:
+            yield f
+        os.replace(tmp_path, path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
+
+
 def save_config(workdir, config):
     os.makedirs(workdir, exist_ok=True)
     filepath = os.path.join(workdir, "config.yaml")
-- 
2.43.0


From 33765f0ffd8b8f61bcb8a34fcf3cb7ddab15d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:45 +0000
Subject: [PATCH 26/45] fix: cpd_backflow checkpoints keep the moving average
 of squared gradients of VMC_SRRMSProp

---
 scripts/cpd-backflow/cpd_backflow/vmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/vmc.py b/scripts/cpd-backflow/cpd_backflow/vmc.py
index 1977aa1..98985fb 100644
--- a/scripts/cpd-backflow/cpd_backflow/vmc.py
+++ b/scripts/cpd-backflow/cpd_backflow/vmc.py
@@ -65,7 +65,7 @@ def serialize_VMC_SRRMSProp(driver: VMC_SRRMSProp):
     state_dict = {
         "variables": serialization.to_state_dict(driver.state.variables),
         "optimizer": serialization.to_state_dict(driver._optimizer_state),
-        "ema": serialization.to_state_dict(driver.preconditioner._ema),
+        "ema": serialization.to_state_dict(driver._ema),
         "step": driver._step_count
     }
     return state_dict
@@ -90,8 +90,8 @@ serialization.register_serialization_state(
 
 serialization.register_serialization_state(
     VMC_SRRMSProp,
-    serialize_VMC,
-    deserialize_VMC
+    serialize_VMC_SRRMSProp,
+    deserialize_VMC_SRRMSProp
 )
 
 
-- 
2.43.0


From eee1beef3d2ce6e395e82f4437f76980dd4e3f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:45 +0000
Subject: [PATCH 27/45] fix: fermionic Hilbert spaces accept electron numbers
 read back from a config file

---
 GPSKet/hilbert/discrete_fermion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/hilbert/discrete_fermion.py b/GPSKet/hilbert/discrete_fermion.py
index 5ad7a34..bca9a5e 100644
--- a/GPSKet/hilbert/discrete_fermion.py
+++ b/GPSKet/hilbert/discrete_fermion.py
@@ -42,6 +42,7 @@ class FermionicDiscreteHilbert(HomogeneousHilbert):
         local_states = StaticRange(0, 1, 4, dtype=np.uint8)
 
         if n_elec is not None:
+            n_elec = tuple(n_elec)
             constraint = FermionicSumConstraint(N, n_elec)
         else:
             constraint = None
-- 
2.43.0


From 95392f0b53c24840c9c7efdc9a9ee23cb96465da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:45 +0000
Subject: [PATCH 28/45] fix: a resumed cpd_backflow run performs every
 remaining training and finishing step

---
 scripts/cpd-backflow/cpd_backflow/vmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/vmc.py b/scripts/cpd-backflow/cpd_backflow/vmc.py
index 98985fb..825c11e 100644
--- a/scripts/cpd-backflow/cpd_backflow/vmc.py
+++ b/scripts/cpd-backflow/cpd_backflow/vmc.py
@@ -139,7 +139,6 @@ def main(argv):
     checkpoints_dir = os.path.join(workdir, "checkpoints")
     vmc = restore_checkpoint(checkpoints_dir, vmc)
     initial_step = vmc.step_count + 1
-    step = initial_step
     if _MPI_rank == 0:
         logging.info(f"Will start/continue training at initial_step={initial_step}")
 
@@ -149,7 +148,8 @@ def main(argv):
         logger = CSVLogger(os.path.join(workdir, "metrics.csv"), fieldnames)
 
     # Run training loop
-    if initial_step < config.total_steps:
+    step = initial_step - 1
+    if initial_step <= config.total_steps:
         if _MPI_rank == 0:
             logging.info(f"Model has {vs.n_parameters} parameters")
             logging.info('Starting training loop; initial compile can take a while...')
@@ -202,7 +202,7 @@ def main(argv):
                 logging.info(f"Stored checkpoint at step {step} to {checkpoint_path}")
 
     # Descent finishing
-    if config.get('descent_finishing', None) and initial_step < config.total_steps + config.descent_finishing.total_steps:
+    if config.get('descent_finishing', None) and initial_step <= config.total_steps + config.descent_finishing.total_steps:
         # Switch to first SGD optimizer
         op = nk.optimizer.Sgd(learning_rate=config.descent_finishing.learning_rate)
         vmc.optimizer = op
-- 
2.43.0


From 9d0a6c500d319141fd5d59df5dca1cb50dedf2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:45 +0000
Subject: [PATCH 29/45] fix: metrics files created by an interrupted
 cpd_backflow run get their header

---
 scripts/cpd-backflow/cpd_backflow/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/utils.py b/scripts/cpd-backflow/cpd_backflow/utils.py
index a53f3cd..98a96a2 100644
--- a/scripts/cpd-backflow/cpd_backflow/utils.py
+++ b/scripts/cpd-backflow/cpd_backflow/utils.py
@@ -53,7 +53,7 @@ class CSVLogger:
     def __init__(self, filename, fieldnames):
         self.filename = filename
         self.fieldnames = ["Step"] + list(fieldnames)
-        file_exists = os.path.isfile(filename)
+        file_exists = os.path.isfile(filename) and os.path.getsize(filename) > 0
         if not file_exists:
             os.makedirs(os.path.dirname(filename), exist_ok=True)
             with open(filename, mode="w") as f:
-- 
2.43.0


From 8ffe4c6562a87f5c5c789d75f208bc33e5b745fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:45 +0000
Subject: [PATCH 30/45] fix: the config of a cpd_backflow run is replaced
 atomically

---
 scripts/cpd-backflow/cpd_backflow/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/utils.py b/scripts/cpd-backflow/cpd_backflow/utils.py
index 98a96a2..09b642d 100644
--- a/scripts/cpd-backflow/cpd_backflow/utils.py
+++ b/scripts/cpd-backflow/cpd_backflow/utils.py
@@ -29,7 +29,7 @@ def atomic_open(path, mode="w"):
 def save_config(workdir, config):
     os.makedirs(workdir, exist_ok=True)
     filepath = os.path.join(workdir, "config.yaml")
-    with open(filepath, "w") as f:
+    with atomic_open(filepath, "w") as f:
         yaml.safe_dump(
             config.to_dict(), f, default_flow_style=False, allow_unicode=True
         )
-- 
2.43.0


From 216356ee485415ed364ac8d4f2e7d8d94ea91f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:45 +0000
Subject: [PATCH 31/45] fix: best parameters of a cpd_backflow run are replaced
 atomically

---
 scripts/cpd-backflow/cpd_backflow/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/utils.py b/scripts/cpd-backflow/cpd_backflow/utils.py
index 09b642d..44383e0 100644
--- a/scripts/cpd-backflow/cpd_backflow/utils.py
+++ b/scripts/cpd-backflow/cpd_backflow/utils.py
@@ -134,6 +134,6 @@ def save_best_params(workdir: str, params: PyTree, filename: str='best_params'):
     if not os.path.isdir(workdir):
         raise ValueError(f"The argument {workdir} is not a valid path to an existing directory.")
     params_file = os.path.join(workdir, f"{filename}.mpack")
-    with open(params_file, "wb") as f:
+    with atomic_open(params_file, "wb") as f:
         binary_data = serialization.to_bytes(params)
         f.write(binary_data)
\ No newline at end of file
-- 
2.43.0


From 7ffbadd361a0d86b48d5c9e8e218e723df3bed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:19 +0000
Subject: [PATCH 32/45] fix: all ranks of a cpd_backflow run evaluate the
 recorded best parameters

---
 scripts/cpd-backflow/cpd_backflow/vmc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/vmc.py b/scripts/cpd-backflow/cpd_backflow/vmc.py
index 825c11e..da1f48f 100644
--- a/scripts/cpd-backflow/cpd_backflow/vmc.py
+++ b/scripts/cpd-backflow/cpd_backflow/vmc.py
@@ -9,6 +9,7 @@ from absl import app
 from absl import flags
 from absl import logging
 from netket.utils.mpi import node_number as _MPI_rank
+from netket.utils.mpi import MPI_py_comm as _MPI_comm
 from ml_collections import config_flags, ConfigDict
 from netket.vqs import MCState
 from netket.optimizer import Sgd
@@ -261,8 +262,10 @@ def main(argv):
 
     # Evaluate model
     if config.get('evaluate', None):
-        # Restore model
-        best = restore_best_params(workdir)
+        # Restore model (rank 0 may still be writing the best parameters, the others get them from it)
+        best = restore_best_params(workdir) if _MPI_rank == 0 else None
+        if _MPI_comm:
+            best = _MPI_comm.bcast(best, root=0)
         if best is not None:
             best_params = best["Parameters"]
             best_params = jax.tree_util.tree_map(lambda x: jnp.array(x, x.dtype), best_params)
-- 
2.43.0


From ede89d030c48e9575dcc7e1d3f827e75eec6d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:17 +0000
Subject: [PATCH 33/45] fix: the on-the-fly Heisenberg Hamiltonian can be
 constructed

---
 GPSKet/operator/hamiltonian/J1J2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index 6fe0adc..dabf0cb 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -10,7 +10,7 @@ from typing import Optional
 
 
 # dummy class used if the local energy should be evaluated on the fly (allowing for fast updating)
-class HeisenbergOnTheFly(nk.operator.LocalOperator):
+class HeisenbergOnTheFly(nk.operator.Heisenberg):
     pass
 
 
-- 
2.43.0


From d96dcb388ab063e4bf89923f49ec5a3699d4ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:17 +0000
Subject: [PATCH 34/45] fix: the config of an argps run is replaced atomically

---
 scripts/ARGPS/argps/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/ARGPS/argps/utils.py b/scripts/ARGPS/argps/utils.py
index b71c7af..32503b6 100644
--- a/scripts/ARGPS/argps/utils.py
+++ b/scripts/ARGPS/argps/utils.py
@@ -8,10 +8,13 @@ from datetime import timedelta, time
 def save_config(workdir, config):
     os.makedirs(workdir, exist_ok=True)
     filepath = os.path.join(workdir, "config.yaml")
-    with open(filepath, "w") as f:
+    # Replace the file at once, other ranks or a restarted run may read it at any time
+    tmp_filepath = f"{filepath}.{os.getpid()}.tmp"
+    with open(tmp_filepath, "w") as f:
         yaml.safe_dump(
             config.to_dict(), f, default_flow_style=False, allow_unicode=True
         )
+    os.replace(tmp_filepath, filepath)
 
 
 def read_config(workdir):
-- 
2.43.0


From 4339475a8b12b2ea6519bcd9cc0319e7f1cc3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:17 +0000
Subject: [PATCH 35/45] fix: metrics files created by an interrupted argps run
 get their header

---
 scripts/ARGPS/argps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ARGPS/argps/utils.py b/scripts/ARGPS/argps/utils.py
index 32503b6..a836a7f 100644
--- a/scripts/ARGPS/argps/utils.py
+++ b/scripts/ARGPS/argps/utils.py
@@ -35,7 +35,7 @@ class CSVLogger:
     def __init__(self, filename, fieldnames):
         self.filename = filename
         self.fieldnames = ["Step"] + list(fieldnames)
-        file_exists = os.path.isfile(filename)
+        file_exists = os.path.isfile(filename) and os.path.getsize(filename) > 0
         if not file_exists:
             os.makedirs(os.path.dirname(filename), exist_ok=True)
             with open(filename, mode="w") as f:
-- 
2.43.0


From 4ecf24d9b8162856e986d687a699413a9632f063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:14 +0000
Subject: [PATCH 36/45] fix: density matrices of several MPI ranks are averaged
 over the samples that were drawn

---
 scripts/cpd-backflow/cpd_backflow/rdms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/rdms.py b/scripts/cpd-backflow/cpd_backflow/rdms.py
index 56cdc5d..a595136 100644
--- a/scripts/cpd-backflow/cpd_backflow/rdms.py
+++ b/scripts/cpd-backflow/cpd_backflow/rdms.py
@@ -79,7 +79,7 @@ def main(argv):
     chunk_size = config.evaluate.chunk_size
     if n_samples_per_rank % chunk_size != 0:
         raise ValueError("The number of samples per rank must be divisible by the chunk size")
-    vs.n_samples = chunk_size
+    vs.n_samples_per_rank = chunk_size
     n_chunks = n_samples_per_rank // chunk_size
     rdm1 = jnp.zeros((norb, norb), dtype=jnp.float32)
     rdm2 = jnp.zeros((norb, norb, norb, norb), dtype=jnp.float32)
-- 
2.43.0


From e1abaa1488c2212068a40333b035a92747471d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:42 +0000
Subject: [PATCH 37/45] fix: checkpoints and integrals of the ab initio scripts
 are replaced atomically

---
 scripts/GPS_for_ab_initio/H2O.py    | 22 ++++++++++++++++------
 scripts/GPS_for_ab_initio/H4x4x4.py | 23 +++++++++++++++++------
 scripts/GPS_for_ab_initio/H50_1D.py | 19 +++++++++++++++----
 3 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/scripts/GPS_for_ab_initio/H2O.py b/scripts/GPS_for_ab_initio/H2O.py
index aaf2636..f21cf9e 100644
--- a/scripts/GPS_for_ab_initio/H2O.py
+++ b/scripts/GPS_for_ab_initio/H2O.py
@@ -1,3 +1,4 @@
+import os
 from os.path import exists
 
 import numpy as np
@@ -39,6 +40,13 @@ basis_type = int(sys.argv[3])  # basis choice -> 0: local, 1: canonical, 2: spli
 n_samples = int(sys.argv[4])  # total number of samples (approximate if run in parallel)
 
 
+def write_file(filename, write):
+    # Replace the file in one step, an interrupted job does not leave an incomplete one
+    with open(filename + ".tmp", "wb") as fl:
+        write(fl)
+    os.replace(filename + ".tmp", filename)
+
+
 # Construct basis + one- and two-electron integrals with PySCF
 mol = gto.Mole()
 
@@ -85,7 +93,7 @@ if _rank == 0:
                 localizer.verbose = 4
                 loc_coeff_vrt = localizer.kernel()
                 loc_coeff = np.concatenate((loc_coeff_occ, loc_coeff_vrt), axis=1)
-        np.save("basis.npy", loc_coeff)
+        write_file("basis.npy", lambda fl: np.save(fl, loc_coeff))
     if exists("./h1.npy") and exists("./h2.npy"):
         h1 = np.load("./h1.npy")
         h2 = np.load("./h2.npy")
@@ -98,8 +106,8 @@ if _rank == 0:
         # Find the hamiltonian in the local basis
         h1 = np.linalg.multi_dot((loc_coeff.T, myhf.get_hcore(), loc_coeff))
         h2 = ao2mo.restore(1, ao2mo.kernel(mol, loc_coeff), norb)
-        np.save("h1.npy", h1)
-        np.save("h2.npy", h2)
+        write_file("h1.npy", lambda fl: np.save(fl, h1))
+        write_file("h2.npy", lambda fl: np.save(fl, h2))
 
 _MPI_comm.Bcast(h1, root=0)
 
@@ -313,7 +321,7 @@ if _rank == 0:
         print("continuing calculation")
     else:
         best_var = None
-        pickle.dump(vs.parameters, open("best_pars.pickle", "wb"))
+        write_file("best_pars.pickle", lambda fl: pickle.dump(vs.parameters, fl))
         with open("out.txt", "w") as fl:
             fl.write("")
         count = 0
@@ -331,7 +339,7 @@ max_count = 200
 # Optimization loop
 while count < max_count:
     if _rank == 0:
-        pickle.dump(vs.parameters, open("parameters.pickle", "wb"))
+        write_file("parameters.pickle", lambda fl: pickle.dump(vs.parameters, fl))
     dp = gs._forward_and_backward()
     en = gs.energy.mean + nuc_en
     if best_var is None:
@@ -341,7 +349,9 @@ while count < max_count:
         if gs.energy.variance < best_var:
             best_var = gs.energy.variance
             if _rank == 0:
-                pickle.dump(vs.parameters, open("best_pars.pickle", "wb"))
+                write_file(
+                    "best_pars.pickle", lambda fl: pickle.dump(vs.parameters, fl)
+                )
             count = 0
         else:
             count += 1
diff --git a/scripts/GPS_for_ab_initio/H4x4x4.py b/scripts/GPS_for_ab_initio/H4x4x4.py
index 7ea4df8..f16dba7 100644
--- a/scripts/GPS_for_ab_initio/H4x4x4.py
+++ b/scripts/GPS_for_ab_initio/H4x4x4.py
@@ -2,6 +2,7 @@ import sys
 
 import pickle
 
+import os
 from os.path import exists
 
 import numpy as np
@@ -39,6 +40,14 @@ n_samples = 10000  # total number of samples (approximate if run in parallel)
 
 L = 4  # linear dimension of the cubic crystal of H atoms
 
+
+def write_file(filename, write):
+    # Replace the file in one step, an interrupted job does not leave an incomplete one
+    with open(filename + ".tmp", "wb") as fl:
+        write(fl)
+    os.replace(filename + ".tmp", filename)
+
+
 # Construct basis + one- and two-electron integrals with PySCF
 mol = gto.Mole()
 
@@ -74,7 +83,7 @@ if _rank == 0:
         localizer.verbose = 4
         localizer.init_guess = None
         loc_coeff = localizer.kernel()
-        np.save("basis.npy", loc_coeff)
+        write_file("basis.npy", lambda fl: np.save(fl, loc_coeff))
     if exists("./h1.npy") and exists("./h2.npy"):
         h1 = np.load("./h1.npy")
         h2 = np.load("./h2.npy")
@@ -87,8 +96,8 @@ if _rank == 0:
         # Find the hamiltonian in the local basis
         h1 = np.linalg.multi_dot((loc_coeff.T, myhf.get_hcore(), loc_coeff))
         h2 = ao2mo.restore(1, ao2mo.kernel(mol, loc_coeff), norb)
-        np.save("h1.npy", h1)
-        np.save("h2.npy", h2)
+        write_file("h1.npy", lambda fl: np.save(fl, h1))
+        write_file("h2.npy", lambda fl: np.save(fl, h2))
 
 _MPI_comm.Bcast(h1)
 _MPI_comm.barrier()
@@ -252,7 +261,7 @@ if _rank == 0:
         print("continuing calculation")
     else:
         best_var = None
-        pickle.dump(vs.parameters, open("best_pars.pickle", "wb"))
+        write_file("best_pars.pickle", lambda fl: pickle.dump(vs.parameters, fl))
         with open("out.txt", "w") as fl:
             fl.write("")
         count = 0
@@ -273,7 +282,7 @@ max_count = 250
 # Optimization loop
 while count < max_count:
     if _rank == 0:
-        pickle.dump(vs.parameters, open("parameters.pickle", "wb"))
+        write_file("parameters.pickle", lambda fl: pickle.dump(vs.parameters, fl))
     dp = gs._forward_and_backward()
     oneRDM = np.array(get_1RDM(vs))
     en = gs.energy.mean + nuc_en
@@ -284,7 +293,9 @@ while count < max_count:
         if gs.energy.variance < best_var:
             best_var = gs.energy.variance
             if _rank == 0:
-                pickle.dump(vs.parameters, open("best_pars.pickle", "wb"))
+                write_file(
+                    "best_pars.pickle", lambda fl: pickle.dump(vs.parameters, fl)
+                )
             count = 0
         else:
             count += 1
diff --git a/scripts/GPS_for_ab_initio/H50_1D.py b/scripts/GPS_for_ab_initio/H50_1D.py
index b1bcd86..79ef859 100644
--- a/scripts/GPS_for_ab_initio/H50_1D.py
+++ b/scripts/GPS_for_ab_initio/H50_1D.py
@@ -2,6 +2,7 @@ import sys
 
 import pickle
 
+import os
 from os.path import exists
 
 import numpy as np
@@ -31,6 +32,14 @@ n_samples = 10000  # total number of samples (approximate if run in parallel)
 
 L = 50  # number of H atoms
 
+
+def write_file(filename, write):
+    # Replace the file in one step, an interrupted job does not leave an incomplete one
+    with open(filename + ".tmp", "wb") as fl:
+        write(fl)
+    os.replace(filename + ".tmp", filename)
+
+
 # Construct basis + one- and two-electron integrals with PySCF
 mol = gto.Mole()
 
@@ -61,7 +70,7 @@ if _rank == 0:
         localizer.verbose = 4
         localizer.init_guess = None
         loc_coeff = localizer.kernel()
-        np.save("basis.npy", loc_coeff)
+        write_file("basis.npy", lambda fl: np.save(fl, loc_coeff))
     ovlp = myhf.get_ovlp()
     # Check that we still have an orthonormal basis, i.e. C^T S C should be the identity
     assert np.allclose(
@@ -130,7 +139,7 @@ if _rank == 0:
         print("continuing calculation")
     else:
         best_var = None
-        pickle.dump(vs.parameters, open("best_pars.pickle", "wb"))
+        write_file("best_pars.pickle", lambda fl: pickle.dump(vs.parameters, fl))
         with open("out.txt", "w") as fl:
             fl.write("")
         count = 0
@@ -148,7 +157,7 @@ max_count = 100
 # Optimization loop
 while count < max_count:
     if _rank == 0:
-        pickle.dump(vs.parameters, open("parameters.pickle", "wb"))
+        write_file("parameters.pickle", lambda fl: pickle.dump(vs.parameters, fl))
     dp = gs._forward_and_backward()
     en = gs.energy.mean + nuc_en
     if best_var is None:
@@ -158,7 +167,9 @@ while count < max_count:
         if gs.energy.variance < best_var:
             best_var = gs.energy.variance
             if _rank == 0:
-                pickle.dump(vs.parameters, open("best_pars.pickle", "wb"))
+                write_file(
+                    "best_pars.pickle", lambda fl: pickle.dump(vs.parameters, fl)
+                )
             count = 0
         else:
             count += 1
-- 
2.43.0


From 58de1767c12032ebb3373ed37b516a8136b2b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:42 +0000
Subject: [PATCH 38/45] fix: ab initio scripts continue after an interruption
 in their first steps

---
 scripts/GPS_for_ab_initio/H2O.py    | 4 ++--
 scripts/GPS_for_ab_initio/H4x4x4.py | 4 ++--
 scripts/GPS_for_ab_initio/H50_1D.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/GPS_for_ab_initio/H2O.py b/scripts/GPS_for_ab_initio/H2O.py
index f21cf9e..cfc2e44 100644
--- a/scripts/GPS_for_ab_initio/H2O.py
+++ b/scripts/GPS_for_ab_initio/H2O.py
@@ -308,9 +308,9 @@ gs = nk.VMC(ha, op, variational_state=vs, preconditioner=sr)
 
 # Set up checkpointing
 if _rank == 0:
-    if exists("./out.txt"):
+    if exists("./out.txt") and exists("./parameters.pickle"):
         vs.parameters = pickle.load(open("parameters.pickle", "rb"))
-        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3))
+        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3)).reshape((-1, 4))
         if out_prev.shape[0] > 0:
             best_var_arg = np.argmin(out_prev[:, 3])
             best_var = out_prev[best_var_arg, 3]
diff --git a/scripts/GPS_for_ab_initio/H4x4x4.py b/scripts/GPS_for_ab_initio/H4x4x4.py
index f16dba7..7902823 100644
--- a/scripts/GPS_for_ab_initio/H4x4x4.py
+++ b/scripts/GPS_for_ab_initio/H4x4x4.py
@@ -242,9 +242,9 @@ min_global_count = 1000
 
 # Set up checkpointing
 if _rank == 0:
-    if exists("./out.txt"):
+    if exists("./out.txt") and exists("./parameters.pickle"):
         vs.parameters = pickle.load(open("parameters.pickle", "rb"))
-        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3))
+        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3)).reshape((-1, 4))
         if out_prev.shape[0] > 0:
             best_var_arg = np.argmin(out_prev[:, 3])
             best_var = out_prev[best_var_arg, 3]
diff --git a/scripts/GPS_for_ab_initio/H50_1D.py b/scripts/GPS_for_ab_initio/H50_1D.py
index 79ef859..59207c4 100644
--- a/scripts/GPS_for_ab_initio/H50_1D.py
+++ b/scripts/GPS_for_ab_initio/H50_1D.py
@@ -126,9 +126,9 @@ gs = nk.VMC(ha, op, variational_state=vs, preconditioner=sr)
 
 # Set up checkpointing
 if _rank == 0:
-    if exists("./out.txt"):
+    if exists("./out.txt") and exists("./parameters.pickle"):
         vs.parameters = pickle.load(open("parameters.pickle", "rb"))
-        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3))
+        out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3)).reshape((-1, 4))
         if out_prev.shape[0] > 0:
             best_var_arg = np.argmin(out_prev[:, 3])
             best_var = out_prev[best_var_arg, 3]
-- 
2.43.0


From 060168b431052f115696a94e59cddcd60e5796ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:42 +0000
Subject: [PATCH 39/45] fix: restarted ab initio scripts stop after as many
 steps as uninterrupted ones

---
 scripts/GPS_for_ab_initio/H2O.py    |  2 +-
 scripts/GPS_for_ab_initio/H4x4x4.py | 11 ++++-------
 scripts/GPS_for_ab_initio/H50_1D.py |  2 +-
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/scripts/GPS_for_ab_initio/H2O.py b/scripts/GPS_for_ab_initio/H2O.py
index cfc2e44..faa59ad 100644
--- a/scripts/GPS_for_ab_initio/H2O.py
+++ b/scripts/GPS_for_ab_initio/H2O.py
@@ -314,7 +314,7 @@ if _rank == 0:
         if out_prev.shape[0] > 0:
             best_var_arg = np.argmin(out_prev[:, 3])
             best_var = out_prev[best_var_arg, 3]
-            count = out_prev.shape[0] - best_var_arg
+            count = out_prev.shape[0] - 1 - best_var_arg
         else:
             best_var = None
             count = 0
diff --git a/scripts/GPS_for_ab_initio/H4x4x4.py b/scripts/GPS_for_ab_initio/H4x4x4.py
index 7902823..21e637a 100644
--- a/scripts/GPS_for_ab_initio/H4x4x4.py
+++ b/scripts/GPS_for_ab_initio/H4x4x4.py
@@ -245,19 +245,16 @@ if _rank == 0:
     if exists("./out.txt") and exists("./parameters.pickle"):
         vs.parameters = pickle.load(open("parameters.pickle", "rb"))
         out_prev = np.genfromtxt("out.txt", usecols=(0, 1, 2, 3)).reshape((-1, 4))
+        global_count = out_prev.shape[0]
+        # Only the steps after the first min_global_count ones are compared
+        out_prev = out_prev[min_global_count:]
         if out_prev.shape[0] > 0:
             best_var_arg = np.argmin(out_prev[:, 3])
             best_var = out_prev[best_var_arg, 3]
-            if best_var_arg < min_global_count:
-                count = out_prev.shape[0] - best_var_arg
-            else:
-                best_var = None
-                count = 0
-            global_count = out_prev.shape[0]
+            count = out_prev.shape[0] - 1 - best_var_arg
         else:
             best_var = None
             count = 0
-            global_count = 0
         print("continuing calculation")
     else:
         best_var = None
diff --git a/scripts/GPS_for_ab_initio/H50_1D.py b/scripts/GPS_for_ab_initio/H50_1D.py
index 59207c4..9a5f01c 100644
--- a/scripts/GPS_for_ab_initio/H50_1D.py
+++ b/scripts/GPS_for_ab_initio/H50_1D.py
@@ -132,7 +132,7 @@ if _rank == 0:
         if out_prev.shape[0] > 0:
             best_var_arg = np.argmin(out_prev[:, 3])
             best_var = out_prev[best_var_arg, 3]
-            count = out_prev.shape[0] - best_var_arg
+            count = out_prev.shape[0] - 1 - best_var_arg
         else:
             best_var = None
             count = 0
-- 
2.43.0


From b88d4bd2df9f6f75544a4aa1b2e848103734faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:42 +0000
Subject: [PATCH 40/45] fix: H4x4x4 stores the parameters of the first step it
 compares

---
 scripts/GPS_for_ab_initio/H4x4x4.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/GPS_for_ab_initio/H4x4x4.py b/scripts/GPS_for_ab_initio/H4x4x4.py
index 21e637a..d807291 100644
--- a/scripts/GPS_for_ab_initio/H4x4x4.py
+++ b/scripts/GPS_for_ab_initio/H4x4x4.py
@@ -285,6 +285,8 @@ while count < max_count:
     en = gs.energy.mean + nuc_en
     if best_var is None:
         best_var = gs.energy.variance
+        if _rank == 0:
+            write_file("best_pars.pickle", lambda fl: pickle.dump(vs.parameters, fl))
         count = 0
     else:
         if gs.energy.variance < best_var:
-- 
2.43.0


From 3d5fcad0a3b9c9f1f20ca438825702d5f89c455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 41/45] fix: the pfaffian evaluates with current jax, which has
 no jnp.NINF

---
 GPSKet/models/pfaffian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 2b7b085..8d9ba37 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -69,7 +69,7 @@ def log_pfaffian(mat):
         value = jnp.where(
             matrix[index + 1, index] != 0.0,
             value + jnp.log(matrix[index, index + 1]),
-            jnp.NINF + 0.0j,
+            -jnp.inf + 0.0j,
         )
         t = matrix[index, (index + 2) :] / matrix[index, index + 1]
         matrix = matrix.at[index + 2 :, index + 2 :].add(
-- 
2.43.0


From 14f6368273812172f4449cead0512aadfa7b2363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:59 +0000
Subject: [PATCH 42/45] fix: orbital environments are selected with the
 exchange matrix in the orbital basis

---
 scripts/cpd-backflow/cpd_backflow/models.py  | 11 +----------
 scripts/cpd-backflow/cpd_backflow/systems.py |  5 ++---
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index 842d601..321891e 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -298,19 +298,10 @@ def get_top_k_orbital_indices(config: ConfigDict, exchange_cutoff: int, workdir:
             workdir = os.getcwd()
         exchange_path = os.path.join(workdir, 'exchange.npy')
         if os.path.exists(exchange_path):
-            em = np.load(exchange_path) # (norb, norb)
+            em = np.load(exchange_path) # (norb, norb), in the orbital basis
         else:
             raise FileNotFoundError('No exchange matrix found in workdir')
         
-        # Transform to a local orbital basis, if necessary
-        if 'local' in config.basis:
-            basis_path = os.path.join(workdir, 'basis.npy')
-            if os.path.exists(basis_path):
-                basis = np.load(basis_path) # (norb, norb)
-            else:
-                raise FileNotFoundError('No basis file found in workdir')
-            em = np.linalg.multi_dot((basis.T, em, basis))
-
         # Generate environment matrix of top-K closest coupled orbitals for each orbital
         top_k_orbital_indices = np.flip(np.argsort(np.abs(em), axis=1)[:, -exchange_cutoff:], axis=1)
     else:
diff --git a/scripts/cpd-backflow/cpd_backflow/systems.py b/scripts/cpd-backflow/cpd_backflow/systems.py
index c6d35f1..5139aad 100644
--- a/scripts/cpd-backflow/cpd_backflow/systems.py
+++ b/scripts/cpd-backflow/cpd_backflow/systems.py
@@ -166,9 +166,8 @@ def get_molecular_system(config: ConfigDict, workdir: Optional[str]=None, store_
                 dm = mf.make_rdm1()
                 # Get exchange matrix
                 _, em = mf.get_jk(mol, dm)
-                # Transform to a local orbital basis, if necessary
-                if 'local' in config.basis:
-                    em = np.linalg.multi_dot((basis.T, em, basis))
+                # Transform to the orbital basis
+                em = np.linalg.multi_dot((basis.T, em, basis))
                 with atomic_open(exchange_path, "wb") as f:
                     np.save(f, em)
     else:
-- 
2.43.0


From d2f6d2452279a05c816610c5e08cac146b367943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:30 +0000
Subject: [PATCH 43/45] fix: open Hubbard chains of argps have no hopping
 across the boundary

---
 scripts/ARGPS/argps/systems.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/ARGPS/argps/systems.py b/scripts/ARGPS/argps/systems.py
index a8812d2..1d592c3 100644
--- a/scripts/ARGPS/argps/systems.py
+++ b/scripts/ARGPS/argps/systems.py
@@ -152,8 +152,9 @@ def get_Hubbard_system(config: ConfigDict) -> FermiHubbardOnTheFly:
     )
 
     # Setup Hamiltonian
-    edges = np.array([[i, (i + 1) % Lx] for i in range(Lx)])
-    t = t * np.ones(Lx)
+    n_edges = Lx if config.pbc else Lx - 1
+    edges = np.array([[i, (i + 1) % Lx] for i in range(n_edges)])
+    t = t * np.ones(n_edges)
     if config.pbc and Lx % 4 == 0:
         t[-1] *= -1
     ha = FermiHubbardOnTheFly(hi, edges, U=U, t=t)
-- 
2.43.0


From cfeddb1b1a135cb705b8bd70174c2deeacb8b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:30 +0000
Subject: [PATCH 44/45] fix: CPDBackflow evaluates generalized orbitals with
 environments

---
 GPSKet/models/cpd_backflow.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPSKet/models/cpd_backflow.py b/GPSKet/models/cpd_backflow.py
index 73c5dfd..0042a70 100644
--- a/GPSKet/models/cpd_backflow.py
+++ b/GPSKet/models/cpd_backflow.py
@@ -176,6 +176,9 @@ class CPDBackflow(nn.Module):
                 jnp.expand_dims(self._environments.value, 0),
                 axis=1
             ) # (B, L, K)
+            if not self.fixed_magnetization:
+                # Both spin components of a generalized orbital have the same environment
+                n = jnp.concatenate((n, n), axis=1) # (B, 2L, K)
 
         # Compute orbitals and log-determinant
         if update_sites is not None:
-- 
2.43.0


From 977805d090ab2c841b3ed6a315a852273e7ea9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:30 +0000
Subject: [PATCH 45/45] fix: backflow models with an exchange cutoff do not
 announce fast updates, which they cannot do

---
 scripts/cpd-backflow/cpd_backflow/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index 321891e..db2aaa2 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -113,7 +113,8 @@ def get_model(config: ConfigDict, hilbert: HomogeneousHilbert, hamiltonian: Hami
             dtype=dtype,
             init_fun=init_fun,
             restricted=config.model.restricted,
-            fixed_magnetization=config.model.fixed_magnetization
+            fixed_magnetization=config.model.fixed_magnetization,
+            apply_fast_update=False # not available with environments
         )
     return ma
     
-- 
2.43.0

