From 1226449450f6754531d40f9f71732b44866de5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 01/62] fix: record a copy of the initial particles in the
 history

---
 cbx/utils/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index d0b1195..00bf79f 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -72,7 +72,7 @@ class track_x(track):
     @staticmethod
     def init_history(dyn) -> None:
         dyn.history['x'] = []
-        dyn.history['x'].append(dyn.x)
+        dyn.history['x'].append(dyn.copy(dyn.x))
     
     @staticmethod
     def update(dyn) -> None:
-- 
2.43.0


From 2c96e010f637b7486ae4e7e1a1b319c754232a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 02/62] fix: do not modify the user's extra_tracks list

---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 7ed2cc7..0094300 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -476,7 +476,7 @@ class ParticleDynamic:
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
         self.history = {}
-        self.tracks = extra_tracks
+        self.tracks = list(extra_tracks)
         self.track_it = 0
         for key in track_names:
             if key in self.known_tracks.keys():
-- 
2.43.0


From 4e07502d0c77dbbca623d76ad76bf338398bed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 03/62] fix: keep the tracking configuration when a dynamic is
 reset

---
 cbx/dynamics/pdyn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 0094300..ffc923c 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -471,6 +471,9 @@ class ParticleDynamic:
         Returns:
             None
         """
+        if track_args is None: # reuse the arguments of the last call, e.g., in reset
+            track_args = getattr(self, 'track_args', None)
+        self.track_args = track_args
         track_args = track_args if track_args else {}  
         track_names = track_args.get('names', ['update_norm', 'energy'])
         extra_tracks = track_args.get('extra_tracks', [])
-- 
2.43.0


From f0d4a74a4d52133e9db9b4b329516bf47d3600cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 04/62] fix: report the historical best position as best
 particle in CBOMemory

---
 cbx/dynamics/cbo_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index b1133cb..9afe2e0 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -132,6 +132,6 @@ class CBOMemory(CBO):
         self.f_min = self.energy.min(axis=-1)
         self.f_min_idx = self.energy.argmin(axis=-1)
         
-        self.best_cur_particle = self.x[np.arange(self.M), self.f_min_idx, :]
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
         self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
         
\ No newline at end of file
-- 
2.43.0


From f975595d98e45bdcc0236100561d52227f2f978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 05/62] fix: report the historical best position as best
 particle in PSO

---
 cbx/dynamics/pso.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 8e4db0d..1e919ad 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -144,6 +144,12 @@ class PSO(CBXDynamic):
         self.energy = np.minimum(self.energy, energy_new)
 
         
+    def update_best_cur_particle(self,) -> None:
+        self.f_min = self.energy.min(axis=-1)
+        self.f_min_idx = self.energy.argmin(axis=-1)
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
+        self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
+        
     def compute_consensus(self, x_batch, energy) -> None:
         r"""Computes the consensus point as a weighted mean over the historical-best positions.
 
-- 
2.43.0


From 0d628955b826850c9732f5ab54cd44976b4a0c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 06/62] fix: CBOMemory supports batches and terminated runs

---
 cbx/dynamics/cbo_memory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index 9afe2e0..cad9a18 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -101,14 +101,15 @@ class CBOMemory(CBO):
         self.memory_step()
         
         # evaluation of objective function on all particles
+        energy_old = self.energy[self.particle_idx]
         energy_new = self.eval_f(self.x[self.particle_idx])  
         
         # historical best positions of particles 
         self.y[self.particle_idx] += (
-            ((self.energy>energy_new)[self.ergexp]) * 
+            ((energy_old>energy_new)[self.ergexp]) * 
             (self.x[self.particle_idx] - self.y[self.particle_idx])
         )
-        self.energy = np.minimum(self.energy, energy_new)
+        self.energy[self.particle_idx] = np.minimum(energy_old, energy_new)
 
         
     def compute_consensus(self,) -> None:
@@ -124,7 +125,7 @@ class CBOMemory(CBO):
 
         """
         self.consensus, _ = self._compute_consensus(
-            self.energy, self.y[self.consensus_idx], 
+            self.energy[self.consensus_idx], self.y[self.consensus_idx], 
             self.alpha[self.active_runs_idx, :]
         )
     
-- 
2.43.0


From d87906d2524fb493778a806170fbc030d4aaa45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 07/62] fix: PSO supports batches and terminated runs and
 counts evaluations of active runs only

---
 cbx/dynamics/pso.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 1e919ad..ff2e515 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -135,13 +135,13 @@ class PSO(CBXDynamic):
         self.x[ind] = self.x[ind] + self.dt * self.v[ind]
         
         # evaluation of objective function on all particles
-        energy_new = self.f(self.x[ind])    
-        self.num_f_eval += np.ones(self.M, dtype =int) * self.x[ind].shape[-2] # update number of function evaluations   
+        energy_old = self.energy[ind]
+        energy_new = self.eval_f(self.x[ind])
         
         # historical best positions of particles
         energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-        self.y[ind] = self.y[ind] + ((self.energy>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
-        self.energy = np.minimum(self.energy, energy_new)
+        self.y[ind] = self.y[ind] + ((energy_old>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
+        self.energy[ind] = np.minimum(energy_old, energy_new)
 
         
     def update_best_cur_particle(self,) -> None:
-- 
2.43.0


From 7184169cdebb264ee1234b43610af4d8e65978c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 08/62] fix: PSO attracts particles to the consensus and their
 historical best

---
 cbx/dynamics/pso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index ff2e515..0d0d2b8 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -125,8 +125,8 @@ class PSO(CBXDynamic):
         # dynamcis update
         # velocities of particles
         self.v[ind] = (
-            self.m * self.dt * self.v[ind] +
-            self.correction(self.lamda * self.dt * consensus_drift) +
+            self.m * self.v[ind] -
+            self.correction(self.lamda * self.dt * consensus_drift) -
             self.lamda_memory * self.dt * memory_drift +
             self.s_consensus + 
             self.s_memory)/(self.m+self.gamma*self.dt)
-- 
2.43.0


From 918c93096034af85369bee202cb3661ffe7104a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 09/62] fix: memory dynamics do not alias the objective's
 return value

---
 cbx/dynamics/cbo_memory.py | 2 +-
 cbx/dynamics/pso.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index cad9a18..40a210d 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -63,7 +63,7 @@ class CBOMemory(CBO):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy = self.copy(self.f(self.x)) # f might return a view on x
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations
         self.ergexp = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)])
         
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 0d0d2b8..005280d 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -81,7 +81,7 @@ class PSO(CBXDynamic):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy = self.copy(self.f(self.x)) # f might return a view on x
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations   
         
     def pre_step(self,):
-- 
2.43.0


From 087aded6f0c15956c5c6250cf0c8575c0e99cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 10/62] fix: Heaviside correction uses energies of the moved
 particles and counts one evaluation per active run

---
 cbx/correction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/correction.py b/cbx/correction.py
index 48d60ad..c240f4c 100644
--- a/cbx/correction.py
+++ b/cbx/correction.py
@@ -73,8 +73,8 @@ class heavi_side_correction(correction):
         .. note::
             This function evaluates the objective function on the consensus, therfore the number of function evaluations is increased by the consensus size.
         """
-        dyn.num_f_eval += dyn.consensus.shape[0] # update number of function evaluations
-        return self.correct(x, dyn.f, dyn.energy, dyn.consensus)
+        dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1] # update number of function evaluations
+        return self.correct(x, dyn.f, dyn.energy[dyn.particle_idx], dyn.consensus)
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-- 
2.43.0


From 0769bebc99b6075b316705de4152f00571972d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 11/62] fix: Heaviside corrections support multi-dimensional
 particles

---
 cbx/correction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/correction.py b/cbx/correction.py
index c240f4c..082c4a5 100644
--- a/cbx/correction.py
+++ b/cbx/correction.py
@@ -78,7 +78,7 @@ class heavi_side_correction(correction):
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * np.where(z > 0, 1,0)[...,None]
+        return x * np.where(z > 0, 1,0)[(...,) + (None,) * (x.ndim - z.ndim)]
 
 class heavi_side_reg_correction(heavi_side_correction):
     """
@@ -91,6 +91,6 @@ class heavi_side_reg_correction(heavi_side_correction):
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[...,None]
+        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[(...,) + (None,) * (x.ndim - z.ndim)]
     
 
-- 
2.43.0


From 194aef6fd574ba9c8fa1205900011d8e3a8eb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 12/62] fix: energy stagnation criterion supports several,
 terminated and reset runs

---
 cbx/utils/termination.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index 9b4ff2d..5767872 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -113,18 +113,21 @@ class energy_stagnation_term:
     def __init__(self, patience=20, std_thresh=1e-9):
         self.patience = patience
         self.losses = None
+        self.it = 0 # iteration of the last evaluation
         self.std_thresh = std_thresh
         
     def __call__(self, dyn):
-        if self.losses is None: 
+        if self.losses is None or dyn.it < self.it: # first call or after a reset
+            self.it = 0
             self.losses = np.full((self.patience, dyn.M), np.inf)
         if dyn.consensus is None: 
             return np.zeros((dyn.M), dtype=bool)
-        # eval loss
-        E = dyn.f(dyn.consensus[dyn.active_runs_idx, ...])
-        dyn.num_f_eval[dyn.active_runs_idx] += 1
-        # update losses
-        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E
+        if dyn.it != self.it: # the consensus was updated since the last call
+            self.it = dyn.it
+            # eval loss, the consensus only contains the runs that were active in the last step
+            E = dyn.to_numpy(dyn.eval_f(dyn.consensus)).mean(axis=-1)
+            # update losses
+            self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E
         return np.std(self.losses, axis=0) < self.std_thresh
     
 term_dict.update(
-- 
2.43.0


From 8fcd0999845f6e77fd59f3f26899125d9d3c534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 13/62] fix: covariance noise supports terminated runs and
 batches

---
 cbx/dynamics/pdyn.py | 2 +-
 cbx/noise.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index ffc923c..8251c38 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -902,7 +902,7 @@ class CBXDynamic(ParticleDynamic):
         None.
     
         """                       
-        weights = - self.alpha * self.energy
+        weights = - self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx]
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
diff --git a/cbx/noise.py b/cbx/noise.py
index 6c701d1..04bff2d 100644
--- a/cbx/noise.py
+++ b/cbx/noise.py
@@ -197,7 +197,7 @@ class covariance_noise(noise):
          
         def lamda(self, dyn):
             if self.mode == 'sampling':
-                return 1/(1 + dyn.alpha)
+                return 1/(1 + dyn.alpha[dyn.active_runs_idx, :])
             else:
                 return 1
         
-- 
2.43.0


From b067cdb1b10c731815c4fa99393d117048bddeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 14/62] fix: polarized covariance supports several runs,
 terminated runs and batches

---
 cbx/dynamics/polarcbo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 9dbaa45..23a38bb 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -262,10 +262,13 @@ class PolarCBO(CBO):
         None.
     
         """
-        weights = - self.kernel_factor() * self.neg_log_eval - self.alpha * self.energy
+        weights = (
+            - self.kernel_factor() * self.neg_log_eval 
+            - self.alpha[self.active_runs_idx, :, None] * self.energy[self.particle_idx][:, None, :]
+        )
         coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
-        D = np.sum(D * coeffs[..., None, None], axis = -3)
+        D = np.sum(D[:, None, ...] * coeffs[..., None, None], axis = -3)
         self.Cov_sqrt = compute_mat_sqrt(D)
         
\ No newline at end of file
-- 
2.43.0


From 8cf85e444a40cccb24cb97e32c5f8fcc1da95ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 15/62] fix: drift-constrained CBO supports batches and
 terminated runs

---
 cbx/dynamics/driftconstrainedcbo.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ee2552b..ff2abbb 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -8,16 +8,17 @@ def solve_system(A, x):
 #%%
 def dc_inner_step(self,):
     self.compute_consensus()
-    self.drift = self.x - self.consensus
+    x = self.x[self.particle_idx]
+    self.drift = x - self.consensus
     noise = self.sigma * self.noise()
-    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(self.x)
+    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(x)
     scaled_drift = self.lamda * self.dt * self.drift
     
     x_tilde = scaled_drift + const_drift + noise
     # A = np.eye(self.d[0]) + (self.dt/ self.eps) * self.G.hessian_squared_sum(self.x)
     # self.x -= solve_system(A, x_tilde)
-    self.x -= self.G.solve_Id_hessian_squared_sum(
-        self.x, x_tilde, factor=(self.dt/ self.eps)
+    self.x[self.particle_idx] -= self.G.solve_Id_hessian_squared_sum(
+        x, x_tilde, factor=(self.dt/ self.eps)
     )
 
 
-- 
2.43.0


From ce48cdfb057affc9ef882674cd2f1e3c434bf366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 16/62] fix: regularization-combination CBO supports batches
 and terminated runs

---
 cbx/dynamics/regcombinationcbo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cbx/dynamics/regcombinationcbo.py b/cbx/dynamics/regcombinationcbo.py
index 0660621..205d2c8 100644
--- a/cbx/dynamics/regcombinationcbo.py
+++ b/cbx/dynamics/regcombinationcbo.py
@@ -23,21 +23,22 @@ class RegCombinationCBO(CBO):
     
     def inner_step(self, ):
         self.compute_consensus()
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         noise = self.sigma * self.noise()
 
         #  update particle positions
         
-        x_tilde = self.x - self.lamda * self.dt * self.drift + noise
+        x_tilde = x - self.lamda * self.dt * self.drift + noise
         if self.eps < 1e15:
-            self.x = self.G.solve_Id_plus_call_grad(
-                self.x,
+            self.x[self.particle_idx] = self.G.solve_Id_plus_call_grad(
+                x,
                 x_tilde,
                 factor = self.dt / self.eps
             )
             #self.x = solve_system(A, x_tilde)
         else:
-            self.x = x_tilde
+            self.x[self.particle_idx] = x_tilde
 
     def set_post_process(self, post_process):
         self.post_process = (
-- 
2.43.0


From bf1fb3bacd23a24cad3c0a7a8f91a71dd4448580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 17/62] fix: hypersurface CBO supports batches and terminated
 runs

---
 cbx/dynamics/hypersurfacecbo.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 39b5dd7..6a4b1ad 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -121,7 +121,8 @@ class HyperSurfaceCBO(CBO):
         
     def inner_step(self,):
         self.compute_consensus() # compute consensus, sets self.energy and self.consensus
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         
         # compute relevant terms for update
         # dir_drift = self.x + self.dt * apply_proj(Px, self.consensus)
@@ -129,30 +130,30 @@ class HyperSurfaceCBO(CBO):
         
         # perform addition before matrix multiplaction to save time
         drift_and_noise = (
-            self.x + 
+            x + 
             self.sdf.proj_tangent_space(
-                self.x, 
+                x, 
                 self.dt * self.consensus + 
                 self.sigma * self.noise())
         )
         
-        x_tilde = drift_and_noise - self.noise_constr()
-        self.x = self.sdf.proj(x_tilde)
+        x_tilde = drift_and_noise - self.noise_constr(x)
+        self.x[self.particle_idx] = self.sdf.proj(x_tilde)
         
-    def noise_constr_iso(self,):
+    def noise_constr_iso(self, x):
         return (
-            self.dt * self.sigma**2/2 * self.sdf.Laplacian(self.x) *
+            self.dt * self.sigma**2/2 * self.sdf.Laplacian(x) *
             np.linalg.norm(self.drift, axis=-1, keepdims=True)**2 * 
             # note that in the implementation here:
             # https://github.com/PhilippeSu/KV-CBO/blob/master/v2/kvcbo/KuramotoIteration.m
             # norm(drift)**2 is used instead of drift**2
             #self.drift**2 *
-            self.sdf.grad(self.x)
+            self.sdf.grad(x)
         )
     
-    def noise_constr_aniso(self,):
+    def noise_constr_aniso(self, x):
         return (self.dt * self.sigma**2)/2 * (
             np.linalg.norm(self.drift, axis=-1, keepdims=True) ** 2 +
             self.drift ** 2 -
-            2 * (self.drift * self.x).sum(axis=-1, keepdims=True)**2
-            ) * self.x
\ No newline at end of file
+            2 * (self.drift * x).sum(axis=-1, keepdims=True)**2
+            ) * x
\ No newline at end of file
-- 
2.43.0


From b0296f90e374d01deecc93bf7e1e3ceaa365dc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 18/62] fix: hypersurface CBO uses the drift parameter lamda

---
 cbx/dynamics/hypersurfacecbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 6a4b1ad..6b54c41 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -133,7 +133,7 @@ class HyperSurfaceCBO(CBO):
             x + 
             self.sdf.proj_tangent_space(
                 x, 
-                self.dt * self.consensus + 
+                self.lamda * self.dt * self.consensus + 
                 self.sigma * self.noise())
         )
         
-- 
2.43.0


From 39f90e7d09de806e1fdd37119f25314f6a21c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 19/62] fix: curvature correction of hypersurface CBO with
 anisotropic noise

---
 cbx/dynamics/hypersurfacecbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 6b54c41..0254d2f 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -155,5 +155,5 @@ class HyperSurfaceCBO(CBO):
         return (self.dt * self.sigma**2)/2 * (
             np.linalg.norm(self.drift, axis=-1, keepdims=True) ** 2 +
             self.drift ** 2 -
-            2 * (self.drift * x).sum(axis=-1, keepdims=True)**2
+            2 * ((self.drift * x)**2).sum(axis=-1, keepdims=True)
             ) * x
\ No newline at end of file
-- 
2.43.0


From 017c8bd42e1ca973b0cc7ad81f537fa844219d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 20/62] fix: drift-constrained CBO moves particles when there
 are no constraints

---
 cbx/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index ab802b4..6a2ce4b 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -74,7 +74,7 @@ class MultiConstraint:
                 factor = factor
             )
         else:
-            return 0
+            return x_tilde
     
 class Constraint:
     def squared(self, x):
-- 
2.43.0


From c5c18de3a072958c3579233ef2c158287ba62b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:52 +0000
Subject: [PATCH 21/62] fix: derivatives of quadric constraints with
 non-symmetric matrices

---
 cbx/constraints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index 6a2ce4b..2a5e12d 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -130,14 +130,14 @@ class quadricConstraint(Constraint):
         )
         
     def grad(self, x):
-        return 2 * x@self.A + self.b
+        return x@(self.A + self.A.T) + self.b
     
     def hessian(self, x):
-        return 2 * self.A
+        return np.broadcast_to(self.A + self.A.T, x.shape + (x.shape[-1],))
     
     def solve_Id_plus_call_grad(self, x, x_tilde, factor=1.):
         M = (np.eye(self.A.shape[0])[None, None, ...] + 
-             4 * factor * self(x)[..., None, None] * self.A)
+             2 * factor * self(x)[..., None, None] * (self.A + self.A.T))
         return np.linalg.solve(M, (x_tilde - 2 * factor * self(x)[..., None] * self.b)[..., None])[..., 0]
     
 class sphereConstraint(Constraint):
-- 
2.43.0


From 89799cea0856d42011ff5978ca30e8f767ffa6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:19 +0000
Subject: [PATCH 22/62] fix: post processing removes NaN also when working on a
 copy

---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 8251c38..600861c 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -39,7 +39,7 @@ class post_process_default:
         self.copy_nan_to_num = copy_nan_to_num
     
     def __call__(self, dyn):
-        np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
+        dyn.x = np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
         dyn.x = np.clip(dyn.x, -self.max_thresh, self.max_thresh)
 
 class ParticleDynamic:
-- 
2.43.0


From f953d5b08f4c761692cd96502636e4e4a9e6cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 23/62] fix: independent noise uses the sampler of the dynamic
 and only active runs

---
 cbx/dynamics/driftconstrainedcbo.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ff2abbb..77be914 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -50,16 +50,24 @@ class DriftConstrainedCBO(CBO):
     def inner_step(self,):
         self.indep_noise_step()
         dc_inner_step(self)
+        self.track_last_consensus()
+        
+    def track_last_consensus(self,):
+        # consensus only contains active runs, store the last value for each run
+        if not hasattr(self, 'last_consensus'):
+            self.last_consensus = self.copy(self.x[:, :1, ...])
+        self.last_consensus[self.active_runs_idx] = self.consensus
         
     def indep_noise_step(self,):
         if self.sigma_indep > 0 and (self.consensus is not None):
             while True:
-                cxd = (np.linalg.norm(self.x - self.consensus, axis=-1)**2).mean(axis=-1)/self.d[0]
-                idx = np.where(cxd < self.eps_indep)
-                if len(idx[0]) == 0:
+                diff = self.x[self.active_runs_idx] - self.last_consensus[self.active_runs_idx]
+                cxd = (np.linalg.norm(diff, axis=-1)**2).mean(axis=-1)/self.d[0]
+                idx = self.active_runs_idx[cxd < self.eps_indep]
+                if len(idx) == 0:
                     break
-                z = np.random.normal(0,1, size=((len(idx[0]),) + self.x.shape[1:]))
-                self.x[idx[0], ...] += (
+                z = self.sampler(size=((len(idx),) + self.x.shape[1:]))
+                self.x[idx, ...] += (
                     self.sigma_indep * 
                     self.dt**0.5 * 
                     z
-- 
2.43.0


From aade87eefed74df13e1b6590c54e3422c030ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 24/62] fix: values of 1D objectives are not truncated to the
 type of the first value

---
 cbx/utils/objective_handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/objective_handling.py b/cbx/utils/objective_handling.py
index b8654c8..f2e5d9e 100644
--- a/cbx/utils/objective_handling.py
+++ b/cbx/utils/objective_handling.py
@@ -74,7 +74,7 @@ class cbx_objective_f1D(cbx_objective_fh):
     
     def apply(self, x):
         x = np.atleast_2d(x)
-        return np.apply_along_axis(self.f, 1, x.reshape(-1, x.shape[-1])).reshape(-1,x.shape[-2])
+        return np.array([np.ravel(self.f(z)) for z in x.reshape(-1, x.shape[-1])]).reshape(-1,x.shape[-2])
     
     
 class cbx_objective_f2D(cbx_objective_fh):
-- 
2.43.0


From fab33277baddfeef437ddbe9b8abf6ebe2e387eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 25/62] fix: multimodal objectives accept the documented array
 of shifts

---
 cbx/objectives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index b7adc88..10b19ab 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -416,7 +416,7 @@ class Rastrigin_multimodal(cbx_objective):
     def __init__(self, alpha = None, z = None):
         super().__init__()
         self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.z = z if z is not None else np.zeros((len(self.alpha), 1))
 
         self.V = Rastrigin()
         self.minima = self.z
@@ -548,7 +548,7 @@ class Ackley_multimodal(cbx_objective):
     def __init__(self, alpha = None, z = None):
         super().__init__()
         self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.z = z if z is not None else np.zeros((len(self.alpha), 1))
         self.V = Ackley()
         self.minima = self.z
         self.num_terms = len(self.alpha)
-- 
2.43.0


From ea3c60886770ed76a94f66b0e37e16349b3864de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 26/62] fix: objectives keep the shape of ensembles with one
 run or one particle

---
 cbx/objectives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 10b19ab..aa4cb37 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -571,7 +571,7 @@ class accelerated_sinus(cbx_objective):
 
     def apply(self, x):
         x = np.linalg.norm(x, axis=-1)
-        return np.sin((self.a * x)/(1+x*x)).squeeze() + 1
+        return np.sin((self.a * x)/(1+x*x)) + 1
 
 
 class nd_sinus(cbx_objective):
@@ -586,7 +586,7 @@ class nd_sinus(cbx_objective):
         
         
         res = (np.sin(z) + 1) * (x[...,0]**4 - x[...,0]**2 + 1)
-        return res.squeeze() 
+        return res
 
   
 class p_4th_order(cbx_objective):
@@ -597,7 +597,7 @@ class p_4th_order(cbx_objective):
         n =  x
         
         res = (np.sum(n**4,axis=-1) - np.sum(n**2,axis=-1) + 1)
-        return res.squeeze() 
+        return res
 
 
 class Quadratic(cbx_objective):
-- 
2.43.0


From 3636b51e6246240d2f926c06a99dc586a44e9ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 27/62] fix: declared minimum of Bukin6

---
 cbx/objectives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index aa4cb37..950dc49 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -680,7 +680,7 @@ class Bukin6(cbx_objective):
     
     Global minima
     -------------
-    - :math:`f(x,y) = 0` at :math:`(x,y) = (0,0)`
+    - :math:`f(x,y) = 0` at :math:`(x,y) = (-10,1)`
     
     Examples
     --------
@@ -732,7 +732,7 @@ class Bukin6(cbx_objective):
     """
     def __init__(self,):
         super().__init__()
-        self.minima = np.array([[0, 0]])
+        self.minima = np.array([[-10, 1]])
     
     def apply(self, x):
         return 100 * np.sqrt(np.abs(x[...,1] - 0.01 * x[...,0]**2)) + 0.01 * np.abs(x[...,0] + 10)
-- 
2.43.0


From c26c86cc33a99595fe929365fbfede4d5f54d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 28/62] fix: declared minima of scaled and shifted objectives

---
 cbx/objectives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 950dc49..5d35625 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -287,7 +287,7 @@ class Himmelblau(cbx_objective):
     def __init__(self, factor=1.0):
         super().__init__()
         self.factor = factor
-        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]])
+        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]]) / self.factor
         
     def apply(self, x):
         x = self.factor*x
@@ -1048,7 +1048,7 @@ class Holder_table(cbx_objective):
         super().__init__()
         self.factor = factor
         self.shift = shift
-        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]])
+        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]]) / self.factor + self.shift
 
     def apply(self, x):
         x = (x - self.shift) * self.factor
-- 
2.43.0


From 62232e95b3186bed11b2d24513f724887d4fae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 29/62] fix: inverse mirror map of the log barrier at zero

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 9cc0a05..407bf6d 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -125,7 +125,7 @@ class LogBarrierBox(MirrorMap):
         return 1/(1-theta) - 1/(1+theta)
     
     def grad_conj(self, y):
-        return -1/y + 1/y * np.sqrt(1 + y**2)
+        return y/(1 + np.sqrt(1 + y**2))
     
     def hessian(self, theta):
         n,m = theta.shape
-- 
2.43.0


From 10cab5547ab556a09b22342f986ea5c456d1d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 30/62] fix: ProjectionSquare respects its radius

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 407bf6d..fd6ef4a 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -100,7 +100,7 @@ class ProjectionSquare(ProjectionMirrorMap):
         y = np.clip(y, a_min=-self.r, a_max=self.r).reshape(-1, s[-1])
         idx = np.argmax(np.abs(y), axis=-1)
         
-        y[np.arange(y.shape[0]), idx] = np.sign(y[np.arange(y.shape[0]), idx])
+        y[np.arange(y.shape[0]), idx] = self.r * np.sign(y[np.arange(y.shape[0]), idx])
         return y.reshape(s)
 
 
-- 
2.43.0


From 132f8552a18c1b5f72c1d21887636f7f4f6f819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 31/62] fix: ProjectionSquare maps the origin to the boundary

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index fd6ef4a..d46acab 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -100,7 +100,7 @@ class ProjectionSquare(ProjectionMirrorMap):
         y = np.clip(y, a_min=-self.r, a_max=self.r).reshape(-1, s[-1])
         idx = np.argmax(np.abs(y), axis=-1)
         
-        y[np.arange(y.shape[0]), idx] = self.r * np.sign(y[np.arange(y.shape[0]), idx])
+        y[np.arange(y.shape[0]), idx] = np.copysign(self.r, y[np.arange(y.shape[0]), idx])
         return y.reshape(s)
 
 
-- 
2.43.0


From 3eab0872aeab3e1cb7d6f9a154d11802bf57ecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 32/62] fix: default normal of ProjectionHyperplane

---
 cbx/dynamics/mirrorcbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index d46acab..a513cdd 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -81,7 +81,8 @@ class ProjectionHyperplane(ProjectionMirrorMap):
         self.b = b
         
     def grad_conj(self, y):
-        return y - ((self.a * y).sum(axis=-1, keepdims=True) - self.b)/self.norm_a * self.a
+        a = self.a * np.ones(y.shape[-1]) # the default normal adapts to the dimension
+        return y - ((a * y).sum(axis=-1, keepdims=True) - self.b)/(a**2).sum(axis=-1, keepdims=True) * a
     
 class ProjectionSphere(ProjectionMirrorMap):
     def __init__(self, r=1.):
-- 
2.43.0


From 4c1812d4ba3d6f6337e1e88a10a5e39f369dad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 33/62] fix: overflow in the entropic simplex mirror map

---
 cbx/dynamics/mirrorcbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index a513cdd..b1b4267 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -139,7 +139,8 @@ class NegativeLogEntropySimplex(MirrorMap):
         return np.log(x) + 1
     
     def grad_conj(self, y):
-        return np.exp(y)/(np.exp(y).sum(axis=-1, keepdims=True))
+        z = np.exp(y - y.max(axis=-1, keepdims=True)) # shift avoids overflow
+        return z/z.sum(axis=-1, keepdims=True)
     
     
     
-- 
2.43.0


From 34b3c917b3094bda712e4da1f2c6f4fe7c1e444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 34/62] fix: mirror step does not touch terminated runs

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index b1b4267..f808fc6 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -292,7 +292,7 @@ def mirror_step(self,):
         self.drift, self.lamda, self.dt, 
         self.sigma, self.noise()
     )
-    self.x = self.mirrormap.grad_conj(self.y)
+    self.x[self.active_runs_idx] = self.mirrormap.grad_conj(self.y[self.active_runs_idx])
   
 def select_mirrormap(self, mirrormap):
     self.mirrormap = get_mirror_map(mirrormap)
-- 
2.43.0


From e1aa533860095d540eef6968a34f53807d3e0567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 35/62] fix: Taz kernel does not couple different runs

---
 cbx/dynamics/polarcbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 23a38bb..da9479b 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -138,7 +138,9 @@ class Taz_kernel(kernel):
     
     def neg_log(self, x,y):
         dists = np.linalg.norm(x-y, axis=-1,ord=2)
-        dists =  np.true_divide(1, self.kappa) *  dists/np.max(dists)
+        # normalize by the maximal distance within each run
+        max_dist = np.max(dists, axis=tuple(range(1, dists.ndim)), keepdims=True)
+        dists =  np.true_divide(1, self.kappa) *  dists/np.where(max_dist > 0, max_dist, 1.)
         return  dists**2
 
 #%% PolarCBO
-- 
2.43.0


From 35bfdf77c0b24506293437f8bc75b5ed271ffb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 36/62] fix: update norm of multi-dimensional particles

---
 cbx/dynamics/pdyn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 600861c..b8f08d7 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -283,7 +283,7 @@ class ParticleDynamic:
             None
         """
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
@@ -922,7 +922,7 @@ class CBXDynamic(ParticleDynamic):
     def post_step(self):
         self.post_process(self)
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
-- 
2.43.0


From a5ec80a17d2bdc2db72ec930dfea1dd509ef251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 37/62] fix: resampling does not modify terminated runs

---
 cbx/utils/resampling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index a06a08a..a6a1e17 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -51,6 +51,7 @@ class resampling:
         """
         self.check_num_resamplings(dyn.M)
         idx = np.unique(np.concatenate([r(dyn) for r in self.resamplings]))
+        idx = np.intersect1d(idx, dyn.active_runs_idx) # do not modify terminated runs
         if len(idx)>0:
             self.apply(dyn, idx, var_name = self.var_name, sigma_indep = self.sigma_indep)
             self.num_resampling[idx] += 1
-- 
2.43.0


From a4ba2f9dbf4dca674b0f62828b149dd5d2479029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 38/62] fix: tracking the best consensus in resampling with
 terminated runs

---
 cbx/utils/resampling.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index a6a1e17..51d7e51 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -67,20 +67,20 @@ class resampling:
     def _track_best_consensus(self, dyn, idx):
         if not self.track_best_consensus:
             return
-        consensus_energy = dyn.eval_f(dyn.consensus[idx, ...])
-        
+        # the consensus only contains active runs
+        row = np.searchsorted(dyn.active_runs_idx, idx)
+        consensus = dyn.consensus[row, ...]
+        consensus_energy = dyn.to_numpy(dyn.f(consensus))
+        dyn.num_f_eval[idx] += consensus.shape[1]
         if not hasattr(self, 'best_consensus'):
-            self.best_consensus = dyn.copy(dyn.consensus)
+            self.best_consensus = dyn.copy(dyn.x[:, :1, ...])
             self.best_consensus_energy = np.inf * np.ones((dyn.M,1))
-            self.best_consensus_energy[idx, ...] = consensus_energy
-        else:
-            idx2 = np.where(
-                consensus_energy < self.best_consensus_energy[idx, ...]
-                )[0]
-            self.best_consensus[idx[idx2], ...] = dyn.copy(
-                dyn.consensus[idx[idx2], ...]
-                )
-            self.best_consensus_energy[idx[idx2], ...] = consensus_energy[idx2]
+        idx2 = np.where(
+            consensus_energy < self.best_consensus_energy[idx, ...]
+            )[0]
+        self.best_consensus[idx[idx2], ...] = dyn.copy(consensus[idx2, ...])
+        self.best_consensus_energy[idx[idx2], ...] = consensus_energy[idx2]
+
 
 class ensemble_update_resampling:
     """
-- 
2.43.0


From de484b295b3c8e82c3b978663ca83b25eeeba0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 39/62] fix: success evaluation respects its verbosity

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 6708b17..31c5efd 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -36,7 +36,7 @@ class value_thresh:
 class evaluation:
     def __init__(self, criteria=None, verbosity = 1):
         self.criteria = criteria
-        self.verbosity = 1
+        self.verbosity = verbosity
         
     def __call__(self, dyn):
         idx = np.arange(dyn.M)
-- 
2.43.0


From cb190decd0ca029b4fe684f9fc4a6cdee0452bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 40/62] fix: penalty schedule respects theta_max

---
 cbx/regularizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 520195e..adb8e34 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -126,9 +126,9 @@ class regularization_paramter_scheduler(param_update):
         self.broadcast_params(dyn.x)
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
-        self.theta[t] *= self.factor_theta
-        self.theta[~t] = np.clip(self.theta[~t]/self.factor_theta, 
-                                 a_max= self.theta_max, a_min=None)
+        self.theta[t] = np.clip(self.theta[t] * self.factor_theta, 
+                                a_max= self.theta_max, a_min=None)
+        self.theta[~t] /= self.factor_theta
         dyn.f.lamda[~t] *= self.factor_lamda
         dyn.f.lamda = np.clip(dyn.f.lamda, a_max=self.lamda_max, a_min=0)
             
-- 
2.43.0


From c64ffe307a9efc8fcf81927bf51fa59d95215194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 41/62] fix: scalar penalties of regularized objectives do not
 depend on the first evaluated shape

---
 cbx/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index adb8e34..c11eea1 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -75,7 +75,6 @@ class regularize_objective:
         self.p = p
         
     def __call__(self, x):
-        self.broadcast_lamda(x)
         return self.original_func(x) + self.lamda * self.reg_func(x) ** self.p
     
     def broadcast_lamda(self, x):
@@ -124,6 +123,7 @@ class regularization_paramter_scheduler(param_update):
         
     def update(self, dyn):
         self.broadcast_params(dyn.x)
+        dyn.f.broadcast_lamda(dyn.x)
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
         self.theta[t] = np.clip(self.theta[t] * self.factor_theta, 
-- 
2.43.0


From e00a45b08c97e6a5f77d04702d8ee831adddf593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 42/62] fix: hyperplane distance with a scalar normal

---
 cbx/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index c11eea1..f9c9a8b 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -23,7 +23,8 @@ class HyperplaneDistance:
         self.b = b
     
     def __call__(self, x):
-        return np.abs((self.a*x).sum(axis=-1) - self.b)/self.norm_a
+        a = self.a * np.ones(x.shape[-1]) # a scalar normal adapts to the dimension
+        return np.abs((a*x).sum(axis=-1) - self.b)/np.linalg.norm(a)
 
 
 class SphereDistance:
-- 
2.43.0


From c403e10596c0a497986b42ee38e8b13e177594c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 43/62] fix: underflow in the weighted mean constraint
 violation

---
 cbx/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index f9c9a8b..d10377c 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -92,7 +92,8 @@ def simple_param_rule_mean(dyn):
     return dyn.f.reg_func(dyn.x).mean(axis=-1)
 
 def weighted_param_rule_mean(dyn):
-    E = np.exp(-dyn.alpha * dyn.eval_f(dyn.x))
+    E = dyn.eval_f(dyn.x)
+    E = np.exp(-dyn.alpha * (E - E.min(axis=-1, keepdims=True))) # shift avoids underflow
     R = dyn.f.reg_func(dyn.x)
     return (E * R).sum(axis=-1)/E.sum(axis=-1)
     
-- 
2.43.0


From 5990c1d5c25373809cd78bd5720789975b4c32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 44/62] fix: contour plots accept bounds equal to zero

---
 cbx/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index 6eb3914..c9b28a4 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -21,8 +21,8 @@ def contour_2D(f, ax = None, num_pts = 50,
     if ax is None:
         ax = plt.gca()
     dims = dims if dims is not None else [0,1]
-    y_min = x_min if (not y_min) else y_min
-    y_max = x_max if (not y_max) else y_max
+    y_min = x_min if y_min is None else y_min
+    y_max = x_max if y_max is None else y_max
     x = np.linspace(x_min, x_max, num_pts)
     y = np.linspace(y_min, y_max, num_pts)
     X, Y = np.meshgrid(x,y)
-- 
2.43.0


From a2795027582e75aa0e36e847584646d68cf85cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 45/62] fix: CBS.optimize returns the best particles

---
 cbx/dynamics/cbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/dynamics/cbs.py b/cbx/dynamics/cbs.py
index 2b74a99..bc249c4 100644
--- a/cbx/dynamics/cbs.py
+++ b/cbx/dynamics/cbs.py
@@ -47,6 +47,7 @@ class CBS(CBO):
                 
     def optimize(self, sched = 'default'):
         self.run(sched=sched)
+        return self.best_particle
         
     def default_sched(self,):
         return scheduler([])
-- 
2.43.0


From 7d83fe81c8c7268551ef98c156999237bec30f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 46/62] fix: accurate consensus weights for large energies

---
 cbx/dynamics/pdyn.py     | 3 ++-
 cbx/utils/torch_utils.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index b8f08d7..545c857 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -583,7 +583,8 @@ class compute_consensus_default:
             self.check_coeffs = self._no_check_coeffs
     
     def __call__(self, energy, x, alpha):
-        weights = - alpha * energy
+        # subtract the minimum, large weights would cancel the normalization
+        weights = - alpha * (energy - energy.min(axis=-1, keepdims=True))
         coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=-1, keepdims=True))[coeff_expan]
         self.check_coeffs(coeffs)
diff --git a/cbx/utils/torch_utils.py b/cbx/utils/torch_utils.py
index 2c1f447..501ac22 100644
--- a/cbx/utils/torch_utils.py
+++ b/cbx/utils/torch_utils.py
@@ -31,7 +31,8 @@ def norm_torch(x, axis, **kwargs):
 
 @requires_torch
 def compute_consensus_torch(energy, x, alpha):
-    weights = - alpha * energy
+    # subtract the minimum, large weights would cancel the normalization
+    weights = - alpha * (energy - torch.amin(energy, dim=-1, keepdim=True))
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
     coeffs = torch.exp(weights - logsumexp(weights, dim=-1, keepdims=True))[coeff_expan]
     return (x * coeffs).sum(axis=1, keepdims=True), energy.cpu().numpy()
-- 
2.43.0


From ee73a17b3388942f9ac2bb8eb3b9779a6bc6696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 47/62] fix: accurate covariance weights for large energies

---
 cbx/dynamics/pdyn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 545c857..182fd65 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -903,7 +903,9 @@ class CBXDynamic(ParticleDynamic):
         None.
     
         """                       
-        weights = - self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx]
+        energy = self.energy[self.particle_idx]
+        energy = energy - energy.min(axis=-1, keepdims=True)
+        weights = - self.alpha[self.active_runs_idx, :] * energy
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
-- 
2.43.0


From dd1cc5a51d0846b992f6ef392d3c7f87561352c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 48/62] fix: accurate polar consensus weights for large
 energies

---
 cbx/dynamics/polarcbo.py | 10 ++++++++--
 cbx/utils/torch_utils.py |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index da9479b..d23ba78 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -145,7 +145,10 @@ class Taz_kernel(kernel):
 
 #%% PolarCBO
 def compute_polar_consensus(energy, x, neg_log_eval, alpha = 1., kernel_factor = 1.):
-    weights = -kernel_factor * neg_log_eval - alpha * energy[:,None,:]
+    # subtract the minimum, large weights would cancel the normalization
+    E = energy - energy.min(axis=-1, keepdims=True)
+    weights = -kernel_factor * neg_log_eval - alpha * E[:,None,:]
+    weights = weights - weights.max(axis=-1, keepdims=True)
     coeffs = np.exp(weights - logsumexp(weights, axis=-1, keepdims=True))
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
     c = np.sum(x[:,None,...] * coeffs[coeff_expan], axis=2)
@@ -264,10 +267,13 @@ class PolarCBO(CBO):
         None.
     
         """
+        energy = self.energy[self.particle_idx]
+        energy = energy - energy.min(axis=-1, keepdims=True)
         weights = (
             - self.kernel_factor() * self.neg_log_eval 
-            - self.alpha[self.active_runs_idx, :, None] * self.energy[self.particle_idx][:, None, :]
+            - self.alpha[self.active_runs_idx, :, None] * energy[:, None, :]
         )
+        weights = weights - weights.max(axis=-1, keepdims=True)
         coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
diff --git a/cbx/utils/torch_utils.py b/cbx/utils/torch_utils.py
index 501ac22..41927ae 100644
--- a/cbx/utils/torch_utils.py
+++ b/cbx/utils/torch_utils.py
@@ -39,7 +39,9 @@ def compute_consensus_torch(energy, x, alpha):
 
 @requires_torch
 def compute_polar_consensus_torch(energy, x, neg_log_eval, alpha = 1., kernel_factor = 1.):
-    weights = -kernel_factor * neg_log_eval - alpha * energy[:,None,:]
+    E = energy - torch.amin(energy, dim=-1, keepdim=True)
+    weights = -kernel_factor * neg_log_eval - alpha * E[:,None,:]
+    weights = weights - torch.amax(weights, dim=-1, keepdim=True)
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
     coeffs = torch.exp(weights - torch.logsumexp(weights, dim=(-1,), keepdims=True))[coeff_expan]
     c = torch.sum(x[:,None,...] * coeffs, axis=2)
-- 
2.43.0


From 5a7309531326946798441d3cdce1920c1e30b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 49/62] fix: accurate effective sample size for large energies

---
 cbx/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/scheduler.py b/cbx/scheduler.py
index 9925f08..4b4efcf 100644
--- a/cbx/scheduler.py
+++ b/cbx/scheduler.py
@@ -171,7 +171,7 @@ class eff_sample_size_gap:
     
     def __init__(self, energy, eta):
         self.eta = eta
-        self.energy = energy
+        self.energy = energy - energy.min(axis=-1, keepdims=True) # invariant under shifts
         self.N = energy.shape[-1]
     
     def __call__(self, alpha):
-- 
2.43.0


From 191ced6e254760d72306e02ca6921733c72c101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 50/62] fix: historical best positions survive non-finite
 particles

---
 cbx/dynamics/cbo_memory.py | 9 +++++----
 cbx/dynamics/pso.py        | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index 40a210d..7ee73ab 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -105,11 +105,12 @@ class CBOMemory(CBO):
         energy_new = self.eval_f(self.x[self.particle_idx])  
         
         # historical best positions of particles 
-        self.y[self.particle_idx] += (
-            ((energy_old>energy_new)[self.ergexp]) * 
-            (self.x[self.particle_idx] - self.y[self.particle_idx])
+        improved = energy_old > energy_new
+        self.y[self.particle_idx] = np.where(
+            improved[self.ergexp],
+            self.x[self.particle_idx], self.y[self.particle_idx]
         )
-        self.energy[self.particle_idx] = np.minimum(energy_old, energy_new)
+        self.energy[self.particle_idx] = np.where(improved, energy_new, energy_old)
 
         
     def compute_consensus(self,) -> None:
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 005280d..08792b3 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -140,8 +140,9 @@ class PSO(CBXDynamic):
         
         # historical best positions of particles
         energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-        self.y[ind] = self.y[ind] + ((energy_old>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
-        self.energy[ind] = np.minimum(energy_old, energy_new)
+        improved = energy_old > energy_new
+        self.y[ind] = np.where(improved[energy_expand], self.x[ind], self.y[ind])
+        self.energy[ind] = np.where(improved, energy_new, energy_old)
 
         
     def update_best_cur_particle(self,) -> None:
-- 
2.43.0


From 5bd693777a262d1ff1598ee447bab9618abb23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 51/62] fix: effective sample size of a run does not depend on
 the other runs

---
 cbx/scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/scheduler.py b/cbx/scheduler.py
index 4b4efcf..31f5042 100644
--- a/cbx/scheduler.py
+++ b/cbx/scheduler.py
@@ -200,17 +200,17 @@ def bisection_solve(f, low, high, max_it = 100, thresh = 1e-2, verbosity=0):
     it = 0
     x = high
     term = False
-    idx = np.arange(len(low))
     while not term:
         x = (low + high)/2
         fx = f(x)
+        # runs that are solved keep their value, whatever the other runs need
+        idx = np.where(np.abs(fx) > thresh)[0]
         gtzero = np.where(fx[idx] > 0)[0]
         ltzero  = np.where(fx[idx] < 0)[0]
         # update low and high
         low[idx[gtzero]] = x[idx[gtzero]]
         high[idx[ltzero]]  = x[idx[ltzero]]
-        # update running idx and iteration
-        idx = np.where(np.abs(fx) > thresh)[0]
+        # update iteration
         it += 1
         term = (it > max_it) | (len(idx) == 0)
     if verbosity > 0:
-- 
2.43.0


From b6667ff30ca01274a25e0d1de82996fb74afaeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 52/62] fix: best particle of DriftConstrainedCBO with
 independent noise

---
 cbx/dynamics/driftconstrainedcbo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index 77be914..dfebec2 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -47,8 +47,12 @@ class DriftConstrainedCBO(CBO):
         self.sigma_indep = sigma_indep
         
         
-    def inner_step(self,):
+    def pre_step(self,):
+        # the perturbed particles are the ones that are evaluated in this step
         self.indep_noise_step()
+        super().pre_step()
+        
+    def inner_step(self,):
         dc_inner_step(self)
         self.track_last_consensus()
         
-- 
2.43.0


From 6fa23b01c6cd4ba490b696358ee0aae043487b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:20 +0000
Subject: [PATCH 53/62] fix: history entries of update_norm and drift are
 copies

---
 cbx/utils/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index 00bf79f..d096f32 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -112,7 +112,7 @@ class track_update_norm(track):
         Returns:
             None
         """
-        dyn.history['update_norm'].append(dyn.update_diff)
+        dyn.history['update_norm'].append(dyn.copy(dyn.update_diff))
      
 
 class track_energy(track):
@@ -165,5 +165,5 @@ class track_drift(track):
     
     @staticmethod
     def update(dyn) -> None:        
-        dyn.history['drift'].append(dyn.drift)
+        dyn.history['drift'].append(dyn.copy(dyn.drift))
         dyn.history['particle_idx'].append(dyn.particle_idx)
\ No newline at end of file
-- 
2.43.0


From 0f699581e05f36aaece50fddd7e407b281c2ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 54/62] fix: Multimodal keeps the shape of the ensemble

---
 cbx/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 5d35625..075520c 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -657,7 +657,7 @@ class Multimodal(cbx_objective):
     def apply(self, x):
         res = 0
         for mn in self.mns:
-            res += mn.pdf(x)
+            res += np.reshape(mn.pdf(x), np.shape(x)[:-1]) # scipy squeezes its output
         return -np.log(res)
             
     
-- 
2.43.0


From 708e0c7a08ca2a70c30565c317b72c22f013ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 55/62] fix: quadric solve_Id_plus_call_grad keeps the shape of
 x

---
 cbx/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index 2a5e12d..5a76916 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -136,7 +136,7 @@ class quadricConstraint(Constraint):
         return np.broadcast_to(self.A + self.A.T, x.shape + (x.shape[-1],))
     
     def solve_Id_plus_call_grad(self, x, x_tilde, factor=1.):
-        M = (np.eye(self.A.shape[0])[None, None, ...] + 
+        M = (np.eye(self.A.shape[0]) + 
              2 * factor * self(x)[..., None, None] * (self.A + self.A.T))
         return np.linalg.solve(M, (x_tilde - 2 * factor * self(x)[..., None] * self.b)[..., None])[..., 0]
     
-- 
2.43.0


From fbc4916baf18df1e9bb229e7ffd572d7b21256f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:00 +0000
Subject: [PATCH 56/62] fix: entropy simplex map accepts torch tensors
 (regression of the overflow repair)

---
 cbx/dynamics/mirrorcbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index f808fc6..b48ea8b 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -139,7 +139,8 @@ class NegativeLogEntropySimplex(MirrorMap):
         return np.log(x) + 1
     
     def grad_conj(self, y):
-        z = np.exp(y - y.max(axis=-1, keepdims=True)) # shift avoids overflow
+        m = y.max(axis=-1, keepdims=True)
+        z = np.exp(y - getattr(m, 'values', m)) # shift avoids overflow (torch returns values and indices)
         return z/z.sum(axis=-1, keepdims=True)
     
     
-- 
2.43.0


From 71dab2e10a7f2fbeedbd84536379dba82f814e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 57/62] fix: success distance for particles whose shape has
 axes of length one

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 31c5efd..8182614 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 def dist_to_min_success(x, x_true, tol=0.25, p=float('inf')):
-    norm_diff = np.linalg.norm((x_true[None,...] - x.squeeze()).reshape(x.shape[0], -1), 
+    norm_diff = np.linalg.norm((x_true[None,...] - x).reshape(x.shape[0], -1), 
                                axis=-1, ord = p)
     idx = np.where(norm_diff < tol)[0]
     
-- 
2.43.0


From d88a2bed7b26fef1701b7825ed5051f5a913505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 58/62] fix: plots with partial batches and terminated runs

---
 cbx/plotting.py | 105 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 73 insertions(+), 32 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index c9b28a4..b599172 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -126,22 +126,43 @@ class PlotDynamic:
         self.plot_objective()
         self.init_x(self.dyn.x)
 
+        row = self.run_row(getattr(self.dyn, 'particle_idx', None))
         if self.plot_consensus:
-            if self.dyn.consensus is None:
-                c = self.dyn.x
+            if self.dyn.consensus is None or row is None:
+                self.init_consensus(self.dyn.x)
             else:
-                c = self.dyn.consensus
-            self.init_consensus(c)
+                self.init_consensus(self.dyn.consensus, row)
 
         if self.plot_drift:
-            if not hasattr(self.dyn, 'drift') or self.dyn.drift is None:
+            if not hasattr(self.dyn, 'drift') or self.dyn.drift is None or row is None:
                 dr = self.dyn.x
                 pidx = Ellipsis
+                row = None
             else:
                 dr = self.dyn.drift
                 pidx = self.dyn.particle_idx
 
-            self.init_drift(self.dyn.x, dr, pidx)
+            self.init_drift(self.dyn.x, dr, pidx, row)
+
+    def run_row(self, pidx):
+        """
+        The row of the selected run in arrays (e.g., consensus or drift) of a step, 
+        which only contain the runs that were active in this step.
+
+        Parameters
+        ----------
+        pidx
+            The particle index of the step.
+
+        Returns
+        -------
+        The index of the row or None, if the run was not active.
+        """
+        if pidx is None:
+            pidx = Ellipsis
+        runs = np.repeat(np.arange(self.dyn.M)[:, None], self.dyn.N, axis=1)[pidx][:, 0]
+        rows = np.where(runs == range(self.dyn.M)[self.num_run])[0]
+        return rows[0] if len(rows) > 0 else None
 
     def plot_objective(self):
         """
@@ -181,7 +202,7 @@ class PlotDynamic:
         y, 
         **self.particle_args)
         
-    def init_consensus(self, c):
+    def init_consensus(self, c, row=None):
         """
         Initializes the consensus plot.
 
@@ -189,23 +210,26 @@ class PlotDynamic:
         ----------
         c
             The consensus points to plot.
-        
+        row
+            The row of the selected run. Defaults to its index.
+
         Returns
         -------
         None
         """
+        row = self.num_run if row is None else row
 
         if self.d == 1:
-            y = np.zeros_like(c[self.num_run, :, self.dims[0]])
+            y = np.zeros_like(c[row, :, self.dims[0]])
         else:
-            y = c[self.num_run, :, self.dims[1]]
+            y = c[row, :, self.dims[1]]
 
         self.scc = self.ax.scatter(
-            c[self.num_run, :, self.dims[0]], 
+            c[row, :, self.dims[0]], 
             y,
             **self.consensus_args)
         
-    def init_drift(self, x, dr, pidx):
+    def init_drift(self, x, dr, pidx, row=None):
         """
         Initializes the drift plot.
         
@@ -217,21 +241,24 @@ class PlotDynamic:
             The drift to plot.
         pidx
             The indices of the particles to plot.
-            
+        row
+            The row of the selected run. Defaults to its index.
+
         Returns
         -------
         None
         """
+        row = self.num_run if row is None else row
         
         if self.d == 1:
             warnings.warn('Drift plot not supported for 1D data.', stacklevel=2)
             self.plot_drift = False
         else:
             self.quiver = self.ax.quiver(
-                x[pidx][..., self.dims[0]][self.num_run,:], 
-                x[pidx][..., self.dims[1]][self.num_run,:], 
-                -dr[self.num_run, :, self.dims[0]], 
-                -dr[self.num_run, :, self.dims[1]],
+                x[pidx][..., self.dims[0]][row,:], 
+                x[pidx][..., self.dims[1]][row,:], 
+                -dr[row, :, self.dims[0]], 
+                -dr[row, :, self.dims[1]],
                 **self.drift_args)
         
     def update(self, wait=0.1):
@@ -249,10 +276,12 @@ class PlotDynamic:
         """
 
         self.plot_particles(self.dyn.x_old)
-        if self.plot_consensus:
-            self.plot_c(self.dyn.consensus)
-        if self.plot_drift:
-            self.plot_d(self.dyn.x_old, self.dyn.drift, self.dyn.particle_idx)
+        row = self.run_row(getattr(self.dyn, 'particle_idx', None))
+        if row is not None: # otherwise the run has not moved
+            if self.plot_consensus:
+                self.plot_c(self.dyn.consensus, row)
+            if self.plot_drift:
+                self.plot_d(self.dyn.x_old, self.dyn.drift, self.dyn.particle_idx, row)
 
         plt.pause(wait)
         
@@ -280,7 +309,7 @@ class PlotDynamic:
 
         self.scx.set_offsets(z)
         
-    def plot_c(self, c):
+    def plot_c(self, c, row=None):
         """
         Plots consensus.
 
@@ -288,22 +317,25 @@ class PlotDynamic:
         ----------
         c
             The consensus to plot.
+        row
+            The row of the selected run. Defaults to its index.
 
         Returns
         -------
         None
         """
+        row = self.num_run if row is None else row
 
         if self.plot_consensus and c is not None:
             if self.d == 1:
-                z = np.stack([c[self.num_run, ...][:, 0],
-                              np.zeros_like(c[self.num_run, ...][:, 0])], axis=-1)
+                z = np.stack([c[row, ...][:, 0],
+                              np.zeros_like(c[row, ...][:, 0])], axis=-1)
             else:
-                z = c[self.num_run, ...][:, self.dims]
+                z = c[row, ...][:, self.dims]
 
             self.scc.set_offsets(z)
         
-    def plot_d(self, x, dr, pidx):
+    def plot_d(self, x, dr, pidx, row=None):
         """
         Plots drift.
 
@@ -315,22 +347,29 @@ class PlotDynamic:
             The drift to plot.
         pidx
             The indices of the particles to plot.
-        
+        row
+            The row of the selected run. Defaults to its index.
+
         Returns
         -------
         None
         """
+        row = self.num_run if row is None else row
         
         if pidx is None:
             pidx = Ellipsis
 
         if self.plot_drift:
+            if self.quiver.N != dr.shape[1]: # the number of arrows is fixed in a quiver plot
+                self.quiver.remove()
+                self.init_drift(x, dr, pidx, row)
+                return
             self.quiver.set_offsets(
-                np.array([x[pidx][..., self.dims[0]][self.num_run, :], 
-                          x[pidx][..., self.dims[1]][self.num_run, :]]).T)
+                np.array([x[pidx][..., self.dims[0]][row, :], 
+                          x[pidx][..., self.dims[1]][row, :]]).T)
             self.quiver.set_UVC(
-                -dr[self.num_run, :, self.dims[0]], 
-                -dr[self.num_run, :, self.dims[1]])
+                -dr[row, :, self.dims[0]], 
+                -dr[row, :, self.dims[1]])
             
             
 
@@ -414,7 +453,9 @@ class PlotDynamicHistory(PlotDynamic):
         if self.plot_consensus:
             self.plot_c(self.c[i])
         if self.plot_drift:
-            self.plot_d(self.x[i], self.dr[i], self.pidx[i])
+            row = self.run_row(self.pidx[i])
+            if row is not None: # otherwise the run has no drift at this iteration
+                self.plot_d(self.x[i], self.dr[i], self.pidx[i], row)
 
     def decorate_at_ind(self,i):
         """
-- 
2.43.0


From e59fb0eb72626b211dd5516d54c86e7f09bbcaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 59/62] fix: batches of the concat variant never contain a
 particle twice

---
 cbx/dynamics/pdyn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 182fd65..ef6eaa5 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -771,7 +771,8 @@ class CBXDynamic(ParticleDynamic):
         If the indices are exhausted, it generates new indices using `np.repeat` and `np.arange`. 
 
         If the `self.batch_var` is set to `'concat'`, we concatenate the new indices with the existing indices using `np.concatenate`, 
-        otherwise, it replaces the existing indices with the new indices. 
+        otherwise, it replaces the existing indices with the new indices. When concatenating, the next batch is completed with the
+        first new indices that do not already belong to it.
 
         After updating the indices, we set the `batch_idx` to the first `batch_size` columns of the indices, 
         and remove these columns from the indices. 
@@ -789,6 +790,10 @@ class CBXDynamic(ParticleDynamic):
             indices = self.batch_rng.permuted(indices, axis=1)
 
             if self.batch_var == 'concat':
+                # particles that are left over must not occur twice in the next batch
+                new = (indices[..., None] != self.indices[:, None, :]).all(axis=-1)
+                first = new & (new.cumsum(axis=1) <= self.batch_size - self.indices.shape[1])
+                indices = np.take_along_axis(indices, np.argsort(~first, axis=1, kind='stable'), axis=1)
                 self.indices = np.concatenate((self.indices, indices), axis=1)
             else:
                 self.indices = indices
-- 
2.43.0


From dd07a710603c520bfe5a41739f9e6ee03905b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 60/62] fix: covariance noise with non-finite objective values
 in three or more dimensions

---
 cbx/dynamics/pdyn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index ef6eaa5..c2faa83 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -569,11 +569,12 @@ def compute_mat_sqrt(A):
         A (np.ndarray): The input matrix.
 
     Returns:
-        np.ndarray: The square root of the matrix.
+        np.ndarray: The square root of the matrix, nan for matrices with non-finite entries.
     """
-    B, V = np.linalg.eigh(A)
+    finite = np.isfinite(A).all(axis=(-2, -1), keepdims=True)
+    B, V = np.linalg.eigh(np.where(finite, A, 0.)) # eigh fails for non-finite matrices
     B = np.maximum(B,0.)
-    return V@(np.sqrt(B)[...,None]*np.moveaxis(V, -1, -2))
+    return np.where(finite, V@(np.sqrt(B)[...,None]*np.moveaxis(V, -1, -2)), np.nan)
 
 class compute_consensus_default:
     def __init__(self, check_coeffs = False):
-- 
2.43.0


From 9454067ce5218c49d0b4eda3f9bed2d111249090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 61/62] fix: initial particles given as integers

---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index c2faa83..ae4e0c9 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -200,7 +200,7 @@ class ParticleDynamic:
                 x = x[None, None, :]
             elif x.ndim == 2:
                 x = x[None, ...]
-            self.x = self.copy(x)
+            self.x = self.copy(1. * x) # steps of integer particles would be truncated
         
         self.M, self.N = self.x.shape[:2]
         self.d = self.x.shape[2:]
-- 
2.43.0


From 438aa10d34d41cc0da851ac897d674cd9dc82b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 62/62] fix: stored energies of objectives with integer values

---
 cbx/dynamics/cbo_memory.py | 2 +-
 cbx/dynamics/pso.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index 7ee73ab..995e547 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -63,7 +63,7 @@ class CBOMemory(CBO):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.copy(self.f(self.x)) # f might return a view on x
+        self.energy = self.copy(1. * self.f(self.x)) # f might return integers or a view on x
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations
         self.ergexp = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)])
         
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 08792b3..9cf1817 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -81,7 +81,7 @@ class PSO(CBXDynamic):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.copy(self.f(self.x)) # f might return a view on x
+        self.energy = self.copy(1. * self.f(self.x)) # f might return integers or a view on x
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations   
         
     def pre_step(self,):
-- 
2.43.0

