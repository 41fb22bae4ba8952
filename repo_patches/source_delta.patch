From 6e42423357f9c714b79657d1cd4c149be44bd61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 01/33] fix: power of a fermionic Hilbert space with fixed
 electron numbers

---
 GPSKet/hilbert/discrete_fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/discrete_fermion.py b/GPSKet/hilbert/discrete_fermion.py
index 5ad7a34..75bae58 100644
--- a/GPSKet/hilbert/discrete_fermion.py
+++ b/GPSKet/hilbert/discrete_fermion.py
@@ -57,7 +57,7 @@ class FermionicDiscreteHilbert(HomogeneousHilbert):
         if self._n_elec is None:
             n_elec = None
         else:
-            n_elec = (n_elec[0] * n, n_elec[1] * n)
+            n_elec = (self._n_elec[0] * n, self._n_elec[1] * n)
 
         return FermionicDiscreteHilbert(self.size * n, n_elec=n_elec)
 
-- 
2.43.0


From 30174e2780c0f54ec3382c74a0ab91d28a7ebf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 02/33] fix: sign of a hop without cumulative counts covers the
 sites strictly between

---
 GPSKet/operator/fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/fermion.py b/GPSKet/operator/fermion.py
index 4ffa2dd..7e4944d 100644
--- a/GPSKet/operator/fermion.py
+++ b/GPSKet/operator/fermion.py
@@ -26,7 +26,7 @@ def apply_hopping(
 
                 if cummulative_count is None:
                     parity_count = np.sum(
-                        (x_prime[left_limit:right_limit] & spin_int).astype(np.bool)
+                        (x_prime[left_limit + 1 : right_limit + 1] & spin_int).astype(np.bool)
                     )
                 else:
                     parity_count = (
-- 
2.43.0


From 9504326be7ebf3e0b191459ecf0f6bc5afa188d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 03/33] fix: FermiHubbard.get_conn_flattened sets the sections
 without edges too

---
 GPSKet/operator/hamiltonian/hubbard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index 7d0d610..3391860 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -90,7 +90,7 @@ class FermiHubbard(FermionicDiscreteOperator):
                 )
                 count += 1
 
-                sections[batch_id] = count
+            sections[batch_id] = count
         return x_prime, mels
 
 
-- 
2.43.0


From 04baaa5e9d25d909faf2e36a9d9654728bc472dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 04/33] fix: SRRMSProp on several processes: reshape gathered
 data on the root only, broadcast the update with the parameter shape

---
 GPSKet/driver/VMC_SRRMSProp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/GPSKet/driver/VMC_SRRMSProp.py b/GPSKet/driver/VMC_SRRMSProp.py
index 50f8d0b..22e2757 100644
--- a/GPSKet/driver/VMC_SRRMSProp.py
+++ b/GPSKet/driver/VMC_SRRMSProp.py
@@ -27,13 +27,15 @@ def SRRMSProp(
         e_mean = nkstats.mean(local_energies)
     local_energies_centered = -2*jnp.conj(local_energies - e_mean) * jnp.sqrt(N_mc)
     local_energies_centered, token = mpi.mpi_gather_jax(local_energies_centered)
-    local_energies_centered = local_energies_centered.reshape(-1, *local_energies_centered.shape[2:])
+    if mpi.rank == 0:
+        local_energies_centered = local_energies_centered.reshape(-1, *local_energies_centered.shape[2:])
 
     # Center jacobians
     O_mean = nkstats.mean(O_L, axis=0)
     O_L = (O_L - O_mean) * jnp.sqrt(N_mc)
     O_L, token = mpi.mpi_gather_jax(O_L, token=token)
-    O_L = O_L.reshape(-1, *O_L.shape[2:])
+    if mpi.rank == 0:
+        O_L = O_L.reshape(-1, *O_L.shape[2:])
 
     # Convert quantities to dense format
     if mode == "complex":
@@ -64,7 +66,7 @@ def SRRMSProp(
         if isinstance(updates, tuple):
             updates, _ = updates
     else:
-        updates = jnp.zeros(local_energies_centered.shape[0], dtype=jnp.float64)
+        updates = jnp.zeros(O_L.shape[-1], dtype=jnp.float64)
     updates, token = mpi.mpi_bcast_jax(updates, token=token, root=0)
     
     # If complex mode and we have complex parameters, we need
-- 
2.43.0


From e893a644161d196fe19593417ccafd835f8c1ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 05/33] fix: ARStateFitting averages the gradient over
 processes like the loss

---
 GPSKet/driver/autoreg_state_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/autoreg_state_fitting.py b/GPSKet/driver/autoreg_state_fitting.py
index 162737f..ce7f1af 100644
--- a/GPSKet/driver/autoreg_state_fitting.py
+++ b/GPSKet/driver/autoreg_state_fitting.py
@@ -90,6 +90,6 @@ def _loss_and_grad(params, model_state, logpsi, mini_batch):
         params, model_state, logpsi, mini_batch
     )
     loss, _ = mpi.mpi_mean_jax(loss)
-    grad = jax.tree_util.tree_map(lambda p: mpi.mpi_sum_jax(p)[0], grad)
+    grad = jax.tree_util.tree_map(lambda p: mpi.mpi_mean_jax(p)[0], grad)
     grad = jax.tree_util.tree_map(jnp.conj, grad)
     return loss, grad
-- 
2.43.0


From 98014063731c729b518797235d2f042b34cc8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 06/33] fix: ARStateFitting draws mini-batches with a key of
 their own

---
 GPSKet/driver/autoreg_state_fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/driver/autoreg_state_fitting.py b/GPSKet/driver/autoreg_state_fitting.py
index ce7f1af..583ecf8 100644
--- a/GPSKet/driver/autoreg_state_fitting.py
+++ b/GPSKet/driver/autoreg_state_fitting.py
@@ -44,9 +44,9 @@ class ARStateFitting(AbstractStateFittingDriver):
 
     def _forward_and_backward(self):
         # Sample mini-batch
-        self._key, _ = jax.random.split(self._key)
+        self._key, subkey = jax.random.split(self._key)
         mini_batch_ids = jax.random.choice(
-            self._key,
+            subkey,
             self._ids,
             (self._mini_batch_size,),
             p=self._probas,
-- 
2.43.0


From c55ef46e51b2ed1c23d64b28897919814a25ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 07/33] fix: random fermionic states draw each spin channel
 with a key of its own

---
 GPSKet/hilbert/random/discrete_fermion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPSKet/hilbert/random/discrete_fermion.py b/GPSKet/hilbert/random/discrete_fermion.py
index d229e68..079de1c 100644
--- a/GPSKet/hilbert/random/discrete_fermion.py
+++ b/GPSKet/hilbert/random/discrete_fermion.py
@@ -15,12 +15,12 @@ def random_state(hilb: FermionicDiscreteHilbert, key, batches: int, *, dtype=jnp
     else:
 
         def scan_fun(key, val):
-            key, subkey = jax.random.split(key)
+            key, up_key, down_key = jax.random.split(key, 3)
             up_pos = jax.random.choice(
-                key, hilb.size, shape=(hilb._n_elec[0],), replace=False
+                up_key, hilb.size, shape=(hilb._n_elec[0],), replace=False
             )
             down_pos = jax.random.choice(
-                subkey, hilb.size, shape=(hilb._n_elec[1],), replace=False
+                down_key, hilb.size, shape=(hilb._n_elec[1],), replace=False
             )
             out = jnp.zeros(hilb.size, dtype=dtype)
             out = out.at[up_pos].add(1)
-- 
2.43.0


From ad6fdda2e46bd401b051fead9b578c576e5342a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 08/33] fix: random states of an unconstrained fermionic
 Hilbert space have the requested dtype

---
 GPSKet/hilbert/random/discrete_fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/random/discrete_fermion.py b/GPSKet/hilbert/random/discrete_fermion.py
index 079de1c..0d33064 100644
--- a/GPSKet/hilbert/random/discrete_fermion.py
+++ b/GPSKet/hilbert/random/discrete_fermion.py
@@ -11,7 +11,7 @@ def random_state(hilb: FermionicDiscreteHilbert, key, batches: int, *, dtype=jnp
     shape = (batches, hilb.size)
 
     if hilb._n_elec is None:
-        out = jax.random.choice(key, jnp.array(hilb.local_states), shape=shape)
+        out = jax.random.choice(key, jnp.array(hilb.local_states, dtype), shape=shape)
     else:
 
         def scan_fun(key, val):
-- 
2.43.0


From 41f5e1e2c95257c8cdd0889b8942ec7e8b00e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:00 +0000
Subject: [PATCH 09/33] fix: ImagTimeStep restores the samples of the state if
 the evaluation fails

---
 GPSKet/supervised/imag_time_step.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 810a829..2bf6437 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -22,10 +22,12 @@ class ImagTimeStep:
         # This is a little bit hacky, the interface should probably be improved at one point
         old_samples = self.vstate._samples
         self.vstate._samples = samples
-        loc_ens = self.vstate.local_estimators(
-            self.hamiltonian, chunk_size=self.vstate.chunk_size
-        )
-        self.vstate._samples = old_samples
+        try:
+            loc_ens = self.vstate.local_estimators(
+                self.hamiltonian, chunk_size=self.vstate.chunk_size
+            )
+        finally:
+            self.vstate._samples = old_samples
         return loc_ens
 
     def log_imag_time_step(self, tau, samples):
-- 
2.43.0


From d448e2c7ce2795c4e22b35d5ab0f895a807f694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:24 +0000
Subject: [PATCH 10/33] fix: PlaquetteqGPS fast updates call jnp.where with
 positional operands

---
 GPSKet/models/plaquetteqGPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 73bf554..1019fcb 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -142,13 +142,13 @@ class PlaquetteqGPS(nn.Module):
                     valid_elements = transformed_sites != -1
                     update = jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[new_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[new_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     update /= jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[old_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[old_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     return sp_old * update
 
-- 
2.43.0


From 7c1cc2fa6d3756e8050ca2f7232fd6506691e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:24 +0000
Subject: [PATCH 11/33] fix: PlaquetteqGPS caches the first occupation listed
 for a repeated update site

---
 GPSKet/models/plaquetteqGPS.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 1019fcb..2a1db2a 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -179,7 +179,15 @@ class PlaquetteqGPS(nn.Module):
             if update_sites is not None:
 
                 def update_fun(saved_config, update_sites, occs):
-                    return saved_config.at[update_sites].set(occs)
+                    def scan_fun(carry, count):
+                        return (carry.at[update_sites[count]].set(occs[count]), None)
+
+                    return jax.lax.scan(
+                        scan_fun,
+                        saved_config,
+                        jnp.arange(update_sites.shape[0]),
+                        reverse=True,
+                    )[0]
 
                 indices_save.value = jax.vmap(
                     update_fun, in_axes=(0, 0, 0), out_axes=0
-- 
2.43.0


From 00871ec5bba0a983f5da5e24e61e116a892229cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:24 +0000
Subject: [PATCH 12/33] fix: ASymmqGPS models accept the fast-update arguments
 they advertise

---
 GPSKet/models/asymm_qGPS.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/asymm_qGPS.py b/GPSKet/models/asymm_qGPS.py
index 323ccbf..cc95797 100644
--- a/GPSKet/models/asymm_qGPS.py
+++ b/GPSKet/models/asymm_qGPS.py
@@ -47,7 +47,9 @@ class ASymmqGPS(nn.Module):
     """Whether fast update is used in the computation of the Slater determinants"""
 
     @nn.compact
-    def __call__(self, x: Array) -> Array:
+    def __call__(
+        self, x: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
         assert self.n_determinants == self.coeffs.shape[0]
         if len(x.shape) == 1:
             x = jnp.expand_dims(x, 0)
@@ -80,7 +82,7 @@ class ASymmqGPS(nn.Module):
             out_transformation=out_transformation,
             apply_fast_update=self.apply_fast_update,
             spin_symmetry_by_structure=self.spin_symmetry_by_structure,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         return log_psi
 
 
@@ -110,7 +112,9 @@ class ASymmqGPSProd(nn.Module):
         assert self.n_determinants % 2 != 0
 
     @nn.compact
-    def __call__(self, x: Array) -> Array:
+    def __call__(
+        self, x: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
         if len(x.shape) == 1:
             x = jnp.expand_dims(x, 0)
         x = jnp.asarray(x, jnp.int32)  # (B, L)
@@ -131,5 +135,5 @@ class ASymmqGPSProd(nn.Module):
             out_transformation=out_transformation,
             apply_fast_update=self.apply_fast_update,
             spin_symmetry_by_structure=self.spin_symmetry_by_structure,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         return log_psi
-- 
2.43.0


From 79024b1ceb905a9cc2bf97ebb78d2241effb6005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:24 +0000
Subject: [PATCH 13/33] fix: BackflowJastrow passes orbitals and corrections to
 the matching fields of Backflow

---
 GPSKet/models/backflow_jastrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/backflow_jastrow.py b/GPSKet/models/backflow_jastrow.py
index 731ac2d..a45dc38 100644
--- a/GPSKet/models/backflow_jastrow.py
+++ b/GPSKet/models/backflow_jastrow.py
@@ -44,8 +44,8 @@ class BackflowJastrow(nn.Module):
         for d in range(n_determinants):
             y = Backflow(
                 self.hilbert,
-                self.orbitals[d],
                 self.correction_fun[d],
+                self.orbitals[d],
                 apply_symmetries=self.backflow_apply_symmetries,
                 spin_symmetry_by_structure=self.spin_symmetry_by_structure,
                 fixed_magnetization=self.fixed_magnetization,
-- 
2.43.0


From 6adb3a307f90086b25db4cb0d2eefe2edb7c1fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:24 +0000
Subject: [PATCH 14/33] fix: log_pfaffian of singular matrices does not use the
 removed jnp.NINF

---
 GPSKet/models/pfaffian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 2b7b085..8d9ba37 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -69,7 +69,7 @@ def log_pfaffian(mat):
         value = jnp.where(
             matrix[index + 1, index] != 0.0,
             value + jnp.log(matrix[index, index + 1]),
-            jnp.NINF + 0.0j,
+            -jnp.inf + 0.0j,
         )
         t = matrix[index, (index + 2) :] / matrix[index, index + 1]
         matrix = matrix.at[index + 2 :, index + 2 :].add(
-- 
2.43.0


From 7633003108c647f99ca40f14ed9046f4efd4129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:24 +0000
Subject: [PATCH 15/33] fix: growing-RVM fits do not use constants removed from
 NumPy

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 85bcbe4..34ca163 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -989,7 +989,7 @@ class QGPSLearningExp(QGPSLearning):
         )
 
         deltaL[delete] = abs(Qdel) ** 2 / (Sdel - Adel) - np.log(1 - Sdel / Adel)
-        deltaL = np.nan_to_num(deltaL, nan=np.NINF, posinf=np.NINF, neginf=np.NINF)
+        deltaL = np.nan_to_num(deltaL, nan=-np.inf, posinf=-np.inf, neginf=-np.inf)
 
         # find feature which caused largest change in likelihood
 
@@ -1009,7 +1009,7 @@ class QGPSLearningExp(QGPSLearning):
                 self.active_elements[feature_index] == True
                 and np.sum(self.active_elements) >= 2
             ):
-                alpha[feature_index] = np.PINF
+                alpha[feature_index] = np.inf
         self.alpha_mat_ref_sites = alpha
 
         return
-- 
2.43.0


From ec6d21be521b17f9f4182c1cb0e5644d05462012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:24 +0000
Subject: [PATCH 16/33] fix: noise optimisation restores the initial precisions
 instead of writing to a copy

---
 GPSKet/supervised/supervised_qgps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 34ca163..2765369 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -823,7 +823,7 @@ class QGPSLearningExp(QGPSLearning):
             def ML(x):
                 self.noise_tilde = np.exp(x[0])
                 if opt_alpha:
-                    np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                    self.alpha_mat_ref_sites = alpha_init.copy()
                 self.setup_fit_noise_dep(weightings=weightings)
                 if opt_alpha:
                     self.opt_alpha_beta(max_iterations=max_alpha_iterations, rvm=rvm)
@@ -832,7 +832,7 @@ class QGPSLearningExp(QGPSLearning):
             def derivative(x):
                 self.noise_tilde = np.exp(x[0])
                 if opt_alpha:
-                    np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                    self.alpha_mat_ref_sites = alpha_init.copy()
                 self.setup_fit_noise_dep(weightings=weightings)
                 if opt_alpha:
                     self.opt_alpha_beta(max_iterations=max_alpha_iterations, rvm=rvm)
@@ -865,7 +865,7 @@ class QGPSLearningExp(QGPSLearning):
 
             self.noise_tilde = np.exp(opt.x)[0]
             if opt_alpha:
-                np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                self.alpha_mat_ref_sites = alpha_init.copy()
             self.setup_fit_noise_dep(weightings=weightings)
 
         if opt_alpha:
-- 
2.43.0


From e1cb4d2f5d83c4193fba9a4125f57199835a9a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:24 +0000
Subject: [PATCH 17/33] fix: growing-RVM fits write the weights back with the
 prior mean they were fitted with

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 2765369..2bbe88b 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1061,7 +1061,7 @@ class QGPSLearningExp(QGPSLearning):
             self.setup_fit_alpha_dep()
 
         if not self.precomputed_features:
-            self.update_epsilon_with_weights()
+            self.update_epsilon_with_weights(prior_mean=prior_mean)
 
         return
 
-- 
2.43.0


From ae9769916180d6ee79478af246e0b0c4bb552785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:24 +0000
Subject: [PATCH 18/33] fix: QGPSGenLinMod leaves the caller's data weights
 unchanged

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 2bbe88b..ccbdef9 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1317,7 +1317,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             self.weightings = np.ones(len(self.exp_amps))
         else:
             self.weightings = weightings
-        self.weightings *= abs(prefactor) ** 2
+        self.weightings = self.weightings * abs(prefactor) ** 2
         self.N_data = _mpi_sum(np.sum(self.weightings))
         if self.noise_tilde != 0.0:
             self.beta = 1 / self.noise_tilde
-- 
2.43.0


From 6a71f56d164740c7e8df38222600691ca36a543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:24 +0000
Subject: [PATCH 19/33] fix: H2O data sets are cached completely or not at all

---
 GPSKet/datasets/h2o.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/GPSKet/datasets/h2o.py b/GPSKet/datasets/h2o.py
index 391c9e0..2878b81 100644
--- a/GPSKet/datasets/h2o.py
+++ b/GPSKet/datasets/h2o.py
@@ -8,6 +8,14 @@ from pyscf import scf, gto, ao2mo, fci, ci, lo
 _DATA = "/tmp/GPSKet_data/"
 
 
+def _save(path, array):
+    # Write to a temporary file first, an interrupted run must not leave a truncated file
+    tmp_path = f"{path}.{os.getpid()}.tmp"
+    with open(tmp_path, "wb") as f:
+        np.save(f, array)
+    os.replace(tmp_path, path)
+
+
 def _H2O_raw(basis, method, datapath):
     mol = gto.Mole()
 
@@ -29,11 +37,11 @@ def _H2O_raw(basis, method, datapath):
     norb = myhf.mo_coeff.shape[1]
     print("Number of molecular orbitals: ", norb)
 
-    if not os.path.exists(datapath):
-        os.makedirs(datapath)
+    os.makedirs(datapath, exist_ok=True)
     dsid = f"{basis}_{method}"
 
-    if not os.path.exists(os.path.join(datapath, f"h1_{dsid}.npy")):
+    # The existence of the file which is written last implies that all files are complete
+    if not os.path.exists(os.path.join(datapath, f"h2_{dsid}.npy")):
         loc_coeff = myhf.mo_coeff
         if basis != "CANONICAL":
             loc_coeff = lo.orth_ao(mol, "meta_lowdin")
@@ -55,15 +63,15 @@ def _H2O_raw(basis, method, datapath):
         # Find the hamiltonian in the local basis
         h1 = np.linalg.multi_dot((loc_coeff.T, myhf.get_hcore(), loc_coeff))
         h2 = ao2mo.restore(1, ao2mo.kernel(mol, loc_coeff), norb)
-        np.save(os.path.join(datapath, f"h1_{dsid}.npy"), h1)
-        np.save(os.path.join(datapath, f"h2_{dsid}.npy"), h2)
+        _save(os.path.join(datapath, f"h1_{dsid}.npy"), h1)
+        _save(os.path.join(datapath, f"h2_{dsid}.npy"), h2)
     else:
         h1 = np.load(os.path.join(datapath, f"h1_{dsid}.npy"))
         h2 = np.load(os.path.join(datapath, f"h2_{dsid}.npy"))
 
     nuc_en = mol.energy_nuc()
 
-    if not os.path.exists(os.path.join(datapath, f"all_configs_H2O_{dsid}.npy")):
+    if not os.path.exists(os.path.join(datapath, f"all_amplitudes_H2O_{dsid}.npy")):
         if method == "FCI":
             # Run FCI
             cisolver = fci.direct_spin1.FCISolver(mol)
@@ -98,10 +106,10 @@ def _H2O_raw(basis, method, datapath):
                 amps.append(c[i, j])
         all_configurations = np.array(configs)
         all_amplitudes = np.array(amps)
-        np.save(
+        _save(
             os.path.join(datapath, f"all_configs_H2O_{dsid}.npy"), all_configurations
         )
-        np.save(
+        _save(
             os.path.join(datapath, f"all_amplitudes_H2O_{dsid}.npy"), all_amplitudes
         )
     else:
-- 
2.43.0


From f789339f1b6272d6227b0b650ab4d9409fd8d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:09 +0000
Subject: [PATCH 20/33] fix: SRRMSProp orders its collectives, processes with
 different programs cannot deadlock

---
 GPSKet/driver/VMC_SRRMSProp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/VMC_SRRMSProp.py b/GPSKet/driver/VMC_SRRMSProp.py
index 22e2757..1fb1921 100644
--- a/GPSKet/driver/VMC_SRRMSProp.py
+++ b/GPSKet/driver/VMC_SRRMSProp.py
@@ -31,7 +31,7 @@ def SRRMSProp(
         local_energies_centered = local_energies_centered.reshape(-1, *local_energies_centered.shape[2:])
 
     # Center jacobians
-    O_mean = nkstats.mean(O_L, axis=0)
+    O_mean, token = mpi.mpi_mean_jax(jnp.mean(O_L, axis=0), token=token)
     O_L = (O_L - O_mean) * jnp.sqrt(N_mc)
     O_L, token = mpi.mpi_gather_jax(O_L, token=token)
     if mpi.rank == 0:
-- 
2.43.0


From a56ec46e793d7ed84a4b1a6b063aba178fe89100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 21/33] fix: MetropolisFastExchange builds on the exchange rule
 NetKet provides

---
 GPSKet/sampler/metropolis_fast.py            | 2 +-
 GPSKet/sampler/rules/exchange_with_update.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 06f8060..aba5fe5 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -113,6 +113,6 @@ def MetropolisFastExchange(
     if clusters is None:
         assert graph is not None
         clusters = compute_clusters(graph, d_max)
-    exchange_rule_with_updates = ExchangeRuleWithUpdate(jnp.array(clusters))
+    exchange_rule_with_updates = ExchangeRuleWithUpdate(clusters=clusters)
 
     return MetropolisFastSampler(hilbert, exchange_rule_with_updates, *args, **kwargs)
diff --git a/GPSKet/sampler/rules/exchange_with_update.py b/GPSKet/sampler/rules/exchange_with_update.py
index 8dbdf5f..e9d345f 100644
--- a/GPSKet/sampler/rules/exchange_with_update.py
+++ b/GPSKet/sampler/rules/exchange_with_update.py
@@ -1,16 +1,15 @@
 import jax
 import jax.numpy as jnp
-from flax import struct
-from netket.sampler.rules.exchange import ExchangeRule_
+from netket.utils import struct
+from netket.sampler.rules.exchange import ExchangeRule
 
 
-@struct.dataclass
-class ExchangeRuleWithUpdate(ExchangeRule_):
+class ExchangeRuleWithUpdate(ExchangeRule):
     """
     Exchange Update rule which also returns the list of affected sites which is required for the fast metropolis sampler
     """
 
-    returns_updates: bool = True
+    returns_updates: bool = struct.field(pytree_node=False, default=True)
 
     def transition(rule, sampler, machine, parameters, state, key, σ):
         n_chains = σ.shape[0]
-- 
2.43.0


From f38c24a9fa3177c240ef82338c5d1b7937cac8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 22/33] fix: stratified states replace sampler fields through
 NetKet's interface

---
 GPSKet/vqs/mc/mc_state/state_stratified_sampling.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
index 0c8a089..64b2ff9 100644
--- a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
+++ b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
@@ -17,8 +17,6 @@ from netket.utils.mpi import (
 
 from typing import Tuple
 
-from dataclasses import replace
-
 """ Implements a state with stratified sampling, splitting the evaluation of expectation values
 into a determinisitic evaluation over a fixed set, and a sampled estimate over the complement.
 At the moment this is only an implementation for quick testing which is very slow.
@@ -38,9 +36,9 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
     ):
         super().__init__(*args, **kwargs)
 
-        self.n_sweeps = self.sampler.n_sweeps
+        self.n_sweeps = self.sampler.sweep_size
 
-        self.sampler = replace(self.sampler, n_sweeps=1)
+        self.sampler = self.sampler.replace(sweep_size=1)
 
         self.deterministic_samples = jnp.array_split(deterministic_samples, _n_nodes)[
             _rank
@@ -73,7 +71,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             self.current_sample.append(samp)
             key = jax.random.split(key)[0]
         self.current_sample = jnp.array(np.array(self.current_sample))
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
         if not self.rand_norm:
             assert number_random_samples is None
@@ -103,7 +101,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             np.expand_dims(valid, -1), self.current_sample, old_sample
         )
 
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
     @property
     def samples_with_counts(self) -> Tuple[jnp.ndarray, jnp.ndarray]:
-- 
2.43.0


From 7e2176197b177e7a67254212bb79afc323870eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:50 +0000
Subject: [PATCH 23/33] fix: stratified states draw with keys that the sampler
 does not use

---
 .../mc/mc_state/state_stratified_sampling.py   | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
index 64b2ff9..105d80b 100644
--- a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
+++ b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
@@ -55,21 +55,22 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
         }
 
         # Find a valid initial sample (one from the complement), very inelegant
-        key = jax.random.split(self.sampler_state.rng)[0]
+        rng, key = jax.random.split(self.sampler_state.rng)
+        self.sampler_state = self.sampler_state.replace(rng=rng)
 
         self.current_sample = []
 
         for j in range(self.sampler.n_chains_per_rank):
+            key, subkey = jax.random.split(key)
             samp = self.sampler.hilbert.random_state(
-                key, dtype=self.deterministic_samples.dtype
+                subkey, dtype=self.deterministic_samples.dtype
             ).reshape(-1)
             while tuple(np.array(samp)) in self.lookup_dict:
-                key = jax.random.split(key)[0]
+                key, subkey = jax.random.split(key)
                 samp = self.sampler.hilbert.random_state(
-                    key, dtype=self.deterministic_samples.dtype
+                    subkey, dtype=self.deterministic_samples.dtype
                 ).reshape(-1)
             self.current_sample.append(samp)
-            key = jax.random.split(key)[0]
         self.current_sample = jnp.array(np.array(self.current_sample))
         self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
@@ -155,7 +156,8 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
 
                 if self.rand_norm:
                     # Approximation to the norm correction from a uniformly sampled set
-                    key = jax.random.split(self.sampler_state.rng)[0]
+                    rng, key = jax.random.split(self.sampler_state.rng)
+                    self.sampler_state = self.sampler_state.replace(rng=rng)
                     random_samples = np.empty(
                         (
                             self.number_random_samples,
@@ -165,10 +167,10 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
                     )
                     found_samples = 0
                     while found_samples < self.number_random_samples:
-                        key = jax.random.split(key)[0]
+                        key, subkey = jax.random.split(key)
                         proposed_samples = np.array(
                             self.sampler.hilbert.random_state(
-                                key,
+                                subkey,
                                 size=self.number_random_samples,
                                 dtype=self.deterministic_samples.dtype,
                             )
-- 
2.43.0


From 1083e634f88a1d0b5a334e41e8f8a3787a322c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:16 +0000
Subject: [PATCH 24/33] fix: the exclusion process is Hermitian only if its
 boundary rates are pairwise equal

---
 GPSKet/operator/hamiltonian/asep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/asep.py b/GPSKet/operator/hamiltonian/asep.py
index 469064a..a9ed632 100644
--- a/GPSKet/operator/hamiltonian/asep.py
+++ b/GPSKet/operator/hamiltonian/asep.py
@@ -35,7 +35,7 @@ class AsymmetricSimpleExclusionProcess(DiscreteOperator):
     @property
     def is_hermitian(self) -> bool:
         flag = False
-        params_equal = np.sum([self.alpha, self.beta, self.gamma, self.delta]) == 2.0
+        params_equal = self.alpha == self.gamma and self.beta == self.delta
         if self.lambd == 0.0 and params_equal and self.p == self.q:
             flag = True
         return flag
-- 
2.43.0


From 9518a8e933be1713e45e2bf4ff25b69d75facdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:41 +0000
Subject: [PATCH 25/33] fix: on-the-fly Heisenberg Hamiltonians are built from
 NetKet's Heisenberg operator

---
 GPSKet/operator/hamiltonian/J1J2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index 6fe0adc..dabf0cb 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -10,7 +10,7 @@ from typing import Optional
 
 
 # dummy class used if the local energy should be evaluated on the fly (allowing for fast updating)
-class HeisenbergOnTheFly(nk.operator.LocalOperator):
+class HeisenbergOnTheFly(nk.operator.Heisenberg):
     pass
 
 
-- 
2.43.0


From 283cc73118a122ec50b041e7f2e0f9d98ed1d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:41 +0000
Subject: [PATCH 26/33] fix: J1-J2 Hamiltonians accept the default sign rule

---
 GPSKet/operator/hamiltonian/J1J2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index dabf0cb..069c342 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -47,6 +47,9 @@ def get_J1_J2_Hamiltonian(
         classtype = nk.operator.Heisenberg
 
     if J2 != 0:
+        # next-nearest neighbours lie on the same sublattice, their bonds keep their sign
+        if isinstance(sign_rule, bool):
+            sign_rule = [sign_rule, False]
         hamiltonian = classtype(hilbert, g, J=[J1 / 4, J2 / 4], sign_rule=sign_rule)
     else:
         hamiltonian = classtype(hilbert, g, J=J1 / 4, sign_rule=sign_rule)
-- 
2.43.0


From 1ef7541525d07eca3cafbeaabe92752d9d299226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:19 +0000
Subject: [PATCH 27/33] fix: the RMSProp metric determines its default mode
 with NetKet's signature

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 62c0124..6651b07 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -58,7 +58,6 @@ def QGTJacobianDenseRMSProp(
             vstate.parameters,
             vstate.model_state,
             samples,
-            mode=mode,
             holomorphic=holomorphic,
         )
 
-- 
2.43.0


From 5b518a78acbff9707fba653a6e196310a70a94a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:31 +0000
Subject: [PATCH 28/33] fix: ARqGPSModPhaseFull advertised fast updates but
 rejected the cache arguments

---
 GPSKet/models/autoreg_qGPS_full.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index b4928c5..638032b 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -436,7 +436,13 @@ class ARqGPSModPhaseFull(ARqGPSFull):
             self.hilbert, self.hilbert.size, dtype=jnp.float64, init_fun=self.init_fun
         )
 
-    def __call__(self, inputs: Array) -> Array:
-        log_psi_mod = super().__call__(inputs)
-        log_psi_phase = self._qgps(inputs)
+    def __call__(
+        self, inputs: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
+        log_psi_mod = super().__call__(
+            inputs, cache_intermediates=cache_intermediates, update_sites=update_sites
+        )
+        log_psi_phase = self._qgps(
+            inputs, cache_intermediates=cache_intermediates, update_sites=update_sites
+        )
         return log_psi_mod + log_psi_phase * 1j
-- 
2.43.0


From 7be3d4bd6af9ad7b8bc292e6dad6387b53adfab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:59 +0000
Subject: [PATCH 29/33] fix: determinant coefficients of ASymmqGPS multiplied
 the symmetry axis

---
 GPSKet/models/asymm_qGPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/asymm_qGPS.py b/GPSKet/models/asymm_qGPS.py
index cc95797..f8daf57 100644
--- a/GPSKet/models/asymm_qGPS.py
+++ b/GPSKet/models/asymm_qGPS.py
@@ -58,7 +58,7 @@ class ASymmqGPS(nn.Module):
         if self.symmetrization == "kernel":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sum(y, axis=1)  # (B, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=(-2, -1)))  # (B,)
                 y = jnp.log(y)
@@ -67,7 +67,7 @@ class ASymmqGPS(nn.Module):
         elif self.symmetrization == "projective":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(y)  # (B, M, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=1))  # (B, S, T)
                 y = jnp.sum(y, axis=(-2, -1))  # (B,)
                 y = jnp.log(y)
-- 
2.43.0


From cdaaca935ed1d7a2586d1298fcd7ad3cec297d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:12 +0000
Subject: [PATCH 30/33] fix: imaginary time steps can be nested, each state
 keeps its own propagation time

---
 GPSKet/supervised/imag_time_step.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 2bf6437..c212c2c 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -55,6 +55,10 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
         The variational state with updated model (based on a single imaginary time step)
     """
     log_model = vstate._apply_fun
+    # The state passed in can itself be a propagated one, which reads its own propagation time
+    tau_key = "tau"
+    while tau_key in vstate.model_state:
+        tau_key += "_next"
     _, args = get_local_kernel_arguments(vstate, hamiltonian)
     if vstate.chunk_size is None:
         local_estimator_fun = get_local_kernel(vstate, hamiltonian)
@@ -62,7 +66,7 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
         local_estimator_fun = get_local_kernel(vstate, hamiltonian, vstate.chunk_size)
 
     def imag_time_model_log_amp(model_pars, samples):
-        pars, tau = freeze(model_pars).pop("tau")
+        pars, tau = freeze(model_pars).pop(tau_key)
         samps = samples.reshape((-1, samples.shape[-1]))
         loc_ens = local_estimator_fun(log_model, pars, samps, args)
         log_amps = log_model(pars, samps)
@@ -71,5 +75,5 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     new_vstate = copy.deepcopy(vstate)
     new_vstate._apply_fun = imag_time_model_log_amp
     new_vstate._model = wrap_afun(imag_time_model_log_amp)
-    new_vstate.model_state = {"tau": tau, **new_vstate.model_state}
+    new_vstate.model_state = {tau_key: tau, **new_vstate.model_state}
     return new_vstate
-- 
2.43.0


From c2dbd8c3124b2bcd5e69e7edb99d54b7f3b75924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:03 +0000
Subject: [PATCH 31/33] fix: the Newton step of QGPSGenLinMod reaches the
 weights instead of a copy of them

---
 GPSKet/supervised/supervised_qgps.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index ccbdef9..474701d 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1537,10 +1537,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             else:
                 gamma = 1.0
             if self.cholesky:
-                np.copyto(
-                    weights[self.active_elements],
-                    weights[self.active_elements] + gamma * update_directions,
-                )
+                weights[self.active_elements] += gamma * update_directions
             else:
                 if _rank == 0:
                     print("Cholesky fail")
-- 
2.43.0


From 7d39f55d08c0277c2411b10ea99a3e9402f9a82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:03 +0000
Subject: [PATCH 32/33] fix: re-estimating the precisions of QGPSGenLinMod
 keeps the fitted weights instead of clearing them

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 474701d..36c72d8 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1341,7 +1341,7 @@ class QGPSGenLinMod(QGPSLearningExp):
 
         if self.precomputed_features:
             assert self.weights is not None
-            weights = self.weights
+            weights = self.weights.copy()
         else:
             if self.weights is None:
                 weights = (
@@ -1352,7 +1352,7 @@ class QGPSGenLinMod(QGPSLearningExp):
                 if self.complex_expand and self.epsilon.dtype == complex:
                     weights = np.concatenate((weights.real, weights.imag))
             else:
-                weights = self.weights
+                weights = self.weights.copy()
 
         if self.complex_expand and self.epsilon.dtype == complex:
             K = np.hstack((self.K, 1.0j * self.K))
-- 
2.43.0


From 25f2b84e8f54abec909ef46a445571607f80238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:03 +0000
Subject: [PATCH 33/33] fix: line searches of QGPSGenLinMod get a direction for
 all weights, inactive ones included

---
 GPSKet/supervised/supervised_qgps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 36c72d8..410f35a 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1528,7 +1528,9 @@ class QGPSGenLinMod(QGPSLearningExp):
             self.cholesky = _MPI_comm.bcast(self.cholesky, root=0)
 
             if linesearch_fun is not None:
-                result = linesearch_fun(get_loss, get_grad, weights, update_directions)
+                full_directions = np.zeros_like(weights)
+                full_directions[self.active_elements] = update_directions
+                result = linesearch_fun(get_loss, get_grad, weights, full_directions)
                 gamma = result[0]
                 if gamma is None:
                     if _rank == 0:
-- 
2.43.0

