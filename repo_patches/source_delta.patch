From e0aae58734d7ccb7f7e10fc04740545272835609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 1/8] fix: keep fractional values in FSC backward passes with
 integer stage costs

np.zeros_like(L) made the action-value table integer when L was an integer
array, silently truncating real terminal costs or discounted values.
---
 parallel_control/fsc_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 40c491f..807ba15 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -182,7 +182,7 @@ class FSC:
         for k in reversed(range(T)):
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V, self.gamma))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + self.gamma * V[f[:,u]]
             u = Vu.argmin(axis=1)
@@ -300,7 +300,7 @@ class FSC:
             V_list.append(V)
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + V[f[:,u]]
             u = Vu.argmin(axis=1)
-- 
2.43.0


From d12f3d8877e3c38ed3e336c6f64e62dfbe6a756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 2/8] fix: FSC.batch_solution must not cap the minimum cost at
 1e10

With every trajectory costing at least 1e10 the initial bound was returned
as the minimum together with an empty trajectory.
---
 parallel_control/fsc_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 807ba15..40c69d8 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -573,7 +573,7 @@ class FSC:
         u_list     = [0] * T
         min_u_list = u_list.copy()
         min_x_list = []
-        min_cost   = 1e10
+        min_cost   = np.inf
 
         udim = self.f[0].shape[1]
         done = False
-- 
2.43.0


From ebad58dd219211939c6c9bbeea5666163cbdbd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:32 +0000
Subject: [PATCH 3/8] fix: keep fractional noise and input gains when
 discretising an integer system matrix

---
 parallel_control/disc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/disc.py b/parallel_control/disc.py
index 2f14e5f..7f5ff1e 100644
--- a/parallel_control/disc.py
+++ b/parallel_control/disc.py
@@ -31,7 +31,7 @@ def lti_disc(F, L, Qc=None, dt=1.0):
     if np.isscalar(Qc):
         Qc = np.array([[Qc]])
 
-    Phi = np.zeros((2*n,2*n), dtype=F.dtype)
+    Phi = np.zeros((2*n,2*n), dtype=np.result_type(F, L, Qc))
     Phi[ 0:n,  0:n] = F
     Phi[ 0:n,  n: ] = L @ Qc @ L.T
     Phi[n:2*n, n: ] = -F.T
@@ -69,7 +69,7 @@ def lti_disc_u(F, L, G=None, Qc=None, dt=1.0):
 
     m = G.shape[1]
 
-    Psi = np.zeros((n+m,n+m), dtype=F.dtype)
+    Psi = np.zeros((n+m,n+m), dtype=np.result_type(F, G))
     Psi[0:n, 0:n] = F
     Psi[0:n, n: ] = G
 
-- 
2.43.0


From eb7c7b07d5abc0fbf0e2bf65e758e954b4f3ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 4/8] fix: parallel finite-state passes fail for a single-stage
 horizon (max_num_levels 0)

---
 parallel_control/fsc_tf.py     | 6 +++---
 parallel_control/viterbi_tf.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parallel_control/fsc_tf.py b/parallel_control/fsc_tf.py
index f4f77c2..b546f10 100644
--- a/parallel_control/fsc_tf.py
+++ b/parallel_control/fsc_tf.py
@@ -192,7 +192,7 @@ def fsc_par_backwardpass(fs, Ls, LT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(fsc_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -273,7 +273,7 @@ def fsc_par_forwardpass(x0, fs, us, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_f,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     min_xs = elems[...,0]
 #    min_us = tf.gather_nd(us, tf.expand_dims(min_xs[:-1],-1), batch_dims=1)
@@ -342,7 +342,7 @@ def fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_V,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vfs = elems[:,0,:]
     min_xs = tf.argmin(Vfs + Vs, axis=-1, output_type=fs.dtype)
diff --git a/parallel_control/viterbi_tf.py b/parallel_control/viterbi_tf.py
index b7a5156..f99de9b 100644
--- a/parallel_control/viterbi_tf.py
+++ b/parallel_control/viterbi_tf.py
@@ -373,7 +373,7 @@ def viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=10000):
     elems1 = viterbi_par_forwardpass_init(prior, Pi, Po, ys)
     elems2 = tfp.math.scan_associative(viterbi_par_comb_V,
                                       elems1,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
     Ls = elems1[1:]
     Vs = elems2[:, 0, :]
 
@@ -428,7 +428,7 @@ def viterbi_par_backwardpass(us, VT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_f,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     xs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -512,7 +512,7 @@ def viterbi_par_bwfwpass(prior, Pi, Po, ys, Vs, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     elems = tf.reverse(rev_elems, axis=[0])
 
-- 
2.43.0


From 58e9561909f3a56aa5d7b3210b920f52b4762c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 5/8] fix: Viterbi reference routines returned the state
 sequence in the observation dtype

A small observation dtype (e.g. uint8) wrapped state indices modulo 256 (int8: made them negative)
when the model has more states than the dtype can hold.
---
 parallel_control/viterbi_np.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/viterbi_np.py b/parallel_control/viterbi_np.py
index 187765a..27563a3 100644
--- a/parallel_control/viterbi_np.py
+++ b/parallel_control/viterbi_np.py
@@ -50,7 +50,7 @@ class Viterbi_np:
             V = temp.max(axis=0)
             V_list[k+1, :] = V
 
-        v_map = np.zeros((V_list.shape[0],), dtype=y_list.dtype)
+        v_map = np.zeros((V_list.shape[0],), dtype=int)
         last = True
         x = 0
         for k in reversed(range(V_list.shape[0])):
@@ -86,7 +86,7 @@ class Viterbi_np:
             V = temp.min(axis=0)
             V_list[k+1, :] = V
 
-        v_map = np.zeros((V_list.shape[0],), dtype=y_list.dtype)
+        v_map = np.zeros((V_list.shape[0],), dtype=int)
         last = True
         x = 0
         for k in reversed(range(V_list.shape[0])):
@@ -130,7 +130,7 @@ class Viterbi_np:
             V_list[k+1, :] = V
             u_list[k, :] = u
 
-        v_map = np.zeros((V_list.shape[0],), dtype=y_list.dtype)
+        v_map = np.zeros((V_list.shape[0],), dtype=int)
         x = np.argmin(V_list[-1, :])
         v_map[-1] = x
         for k in reversed(range(y_list.shape[0])):
-- 
2.43.0


From 7173cd84dbba87e5f65dd755212be6c4ceed3555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 6/8] fix: time points of the shooting parametrisation have one
 entry per step

---
 parallel_control/hjb_grid_1d_np.py | 4 ++--
 parallel_control/hjb_grid_1d_tf.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c77e5c0..c821f47 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -53,7 +53,7 @@ def fun_and_con_1(g, L, T, x0, xf, a_vec, b_vec):
         c_vec: Constraint violation vector
     """
     dt = T / a_vec.shape[0]
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = dt * jnp.arange(a_vec.shape[0])
     def body(carry, inp):
         a, b, ti = inp
         def f(xc, t):
@@ -126,7 +126,7 @@ def fun_and_con_2(g, L, T, x0, xf, theta):
         c_vec: Constraint violation vector
     """
     dt = T / (theta.shape[0]-1)
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = dt * jnp.arange(theta.shape[0]-1)
     def body(carry, inp):
         _, prev_u = carry
         b, ti = inp
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 57b50f4..fd2c8ef 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -56,7 +56,7 @@ def fun_and_con_1(g, L, T, x0, xf, a_vec, b_vec):
         c_vec: Constraint violation vector
     """
     dt = T / a_vec.shape[-1]
-    t_vec = tf.range(tf.constant(0.0, dtype=T.dtype), T, dt)
+    t_vec = dt * tf.range(a_vec.shape[-1], dtype=T.dtype)
 
     def body(carry, inp):
         a, b, ti = inp
@@ -152,7 +152,7 @@ def fun_and_con_2(g, L, T, x0, xf, theta):
         c_vec: Constraint violation vector
     """
     dt = T / (theta.shape[-1] - 1)
-    t_vec = tf.range(tf.constant(0.0, dtype=T.dtype), T, dt)
+    t_vec = dt * tf.range(theta.shape[-1] - 1, dtype=T.dtype)
 
     def body(carry, inp):
         _, _, prev_u = carry
-- 
2.43.0


From d313e51d96aa7a31fbf719893c752ace7f472f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 7/8] fix: interpolated value combination is finite where
 neighbouring values are equal

---
 parallel_control/hjb_grid_1d_np.py | 8 ++++++--
 parallel_control/hjb_grid_1d_tf.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c821f47..0dfe33c 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -242,7 +242,9 @@ def combine_V_interp(Vij, Vjk):
     fm1 = jnp.take_along_axis(Vsum, jm1, axis=1)
     fp1 = jnp.take_along_axis(Vsum, jp1, axis=1)
 
-    Vik = fi - (fp1 - fm1)**2 / (fp1 + fm1 - 2.0 * fi + lam) / 8.0
+    den = fp1 + fm1 - 2.0 * fi + lam
+    den = jnp.where(den > 0.0, den, 1.0)  # Zero only when flat, then there is nothing to correct
+    Vik = fi - (fp1 - fm1)**2 / den / 8.0
 #    Vik = fi - (fp1 - fm1) ** 2 / (jnp.abs(fp1 + fm1 - 2.0 * fi) + lam) / 8.0
 
     return Vik[:,0,:]
@@ -267,7 +269,9 @@ def combine_V_interp2(Vij, Vjk):
             jm1 = jnp.abs(j-1) # Converts -1 to 1
             nm1 = f.shape[0]-1
             jp1 = nm1 - jnp.abs(nm1-j-1)  # Converts n to n-2
-            Vik[i,k] = f[j] - (f[jp1] - f[jm1])**2 / (f[jp1] + f[jm1] - 2.0 * f[j] + lam) / 8.0
+            den = f[jp1] + f[jm1] - 2.0 * f[j] + lam
+            den = jnp.where(den > 0.0, den, 1.0)  # Zero only when flat, then there is nothing to correct
+            Vik[i,k] = f[j] - (f[jp1] - f[jm1])**2 / den / 8.0
 #            if j == 0 or j == f.shape[0]-1:
 #                Vik[i,k] = f[j]
 #            else:
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index fd2c8ef..d1df513 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -292,7 +292,9 @@ def combine_V_interp(Vij, Vjk):
     fm1 = tf.gather_nd(VsumT, jTm1, batch_dims=3)
     fp1 = tf.gather_nd(VsumT, jTp1, batch_dims=3)
 
-    return fi - (fp1 - fm1)**2 / (fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam) / tf.constant(8.0, dtype=Vij.dtype)
+    den = fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam
+    den = tf.where(den > 0.0, den, tf.ones_like(den))  # Zero only when flat, then there is nothing to correct
+    return fi - (fp1 - fm1)**2 / den / tf.constant(8.0, dtype=Vij.dtype)
 
 def combine_V_interp_rev(Vjk, Vij):
     """ Combine two value functions with interpolation in reversed order.
-- 
2.43.0


From ef0c211e4bee55b66a2397ebfe758aba1e03988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 8/8] fix: TF upwind block value function is finite for
 reachable negative states

---
 parallel_control/cnonlin_models_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/cnonlin_models_tf.py b/parallel_control/cnonlin_models_tf.py
index 46e0a6b..dfb4236 100644
--- a/parallel_control/cnonlin_models_tf.py
+++ b/parallel_control/cnonlin_models_tf.py
@@ -116,6 +116,6 @@ def upwind_model_block_V(inf_value, block_dt, x_grid):
 
     a = tf.exp(block_dt)
     cond1 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, x0_mesh)), tf.less_equal(xf_mesh, a * x0_mesh))
-    cond2 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
+    cond2 = tf.logical_and(tf.logical_and(tf.less_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
 
     return tf.where(tf.logical_or(cond1,cond2), zero_mesh, inf_mesh)
-- 
2.43.0

