From b98204264b06af07e9826b547e82c5cde39d25bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 01/21] fix: keep the full value range when stage costs have a
 narrower dtype

The state-control values were accumulated in the dtype of the stage cost,
so integer stage costs truncated real-valued costs-to-go.
---
 parallel_control/fsc_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 40c491f..647be14 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -182,7 +182,7 @@ class FSC:
         for k in reversed(range(T)):
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + self.gamma * V[f[:,u]]
             u = Vu.argmin(axis=1)
@@ -300,7 +300,7 @@ class FSC:
             V_list.append(V)
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + V[f[:,u]]
             u = Vu.argmin(axis=1)
-- 
2.43.0


From 092f9a8ffcf72ee08a831753f7a178d3ee3c30b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 02/21] fix: batch solution must not assume costs below 1e10

---
 parallel_control/fsc_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 647be14..bfc0f5d 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -573,7 +573,7 @@ class FSC:
         u_list     = [0] * T
         min_u_list = u_list.copy()
         min_x_list = []
-        min_cost   = 1e10
+        min_cost   = np.inf
 
         udim = self.f[0].shape[1]
         done = False
-- 
2.43.0


From cf177e56b92a7e0102ec8b4a85f99c38f6eced0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 03/21] fix: allow parallel Viterbi decoding of a single
 observation

The scans have one element more than there are observations.
---
 parallel_control/viterbi_tf.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/parallel_control/viterbi_tf.py b/parallel_control/viterbi_tf.py
index b7a5156..7a80a95 100644
--- a/parallel_control/viterbi_tf.py
+++ b/parallel_control/viterbi_tf.py
@@ -97,9 +97,9 @@ def viterbi_fsc_par_bwfw(fs, Ls, LT):
         v_map: MAP state sequence.
         Vs_vit: Viterbi value functions.
     """
-    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0])
+    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0]+1)
     x0 = tf.argmin(Vs[0], axis=-1, output_type=fs.dtype)
-    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_forwardpass(x0, fs, us, max_parallel=fs.shape[0])
+    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_forwardpass(x0, fs, us, max_parallel=fs.shape[0]+1)
     return get_viterbi_from_fsc(min_xs_tf_par, Vs)
 
 @tf.function #(reduce_retracing=True)
@@ -116,9 +116,9 @@ def viterbi_fsc_par_bwfwbw(fs, Ls, LT):
         Vs_vit: Viterbi value functions.
     """
 
-    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0])
+    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0]+1)
     x0 = tf.argmin(Vs[0], axis=-1, output_type=fs.dtype)
-    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=fs.shape[0])
+    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=fs.shape[0]+1)
     return get_viterbi_from_fsc(min_xs_tf_par, Vs)
 
 ###########################################################################
@@ -449,8 +449,8 @@ def viterbi_par_fwbw(prior, Pi, Po, ys):
         xs: Optimal state sequence.
         Vs: Viterbi value functions.
     """
-    us, Vs = viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=ys.shape[0])
-    xs = viterbi_par_backwardpass(us, Vs[-1, :], max_parallel=ys.shape[0])
+    us, Vs = viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=ys.shape[0]+1)
+    xs = viterbi_par_backwardpass(us, Vs[-1, :], max_parallel=ys.shape[0]+1)
     return xs, Vs
 
 
@@ -469,7 +469,7 @@ def viterbi_seqpar_fwbw(prior, Pi, Po, ys):
         Vs: Viterbi value functions.
     """
     us, Vs = viterbi_seq_forwardpass(prior, Pi, Po, ys)
-    xs = viterbi_par_backwardpass(us, Vs[-1, :], max_parallel=ys.shape[0])
+    xs = viterbi_par_backwardpass(us, Vs[-1, :], max_parallel=ys.shape[0]+1)
     return xs, Vs
 
 
@@ -536,8 +536,8 @@ def viterbi_par_fwbwfw(prior, Pi, Po, ys):
         v_map: Optimal state sequence.
         Vs: Viterbi value functions.
     """
-    us, Vs = viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=ys.shape[0])
-    v_map, Vfs = viterbi_par_bwfwpass(prior, Pi, Po, ys, Vs, max_parallel=ys.shape[0])
+    us, Vs = viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=ys.shape[0]+1)
+    v_map, Vfs = viterbi_par_bwfwpass(prior, Pi, Po, ys, Vs, max_parallel=ys.shape[0]+1)
     return v_map, Vs
 
 
-- 
2.43.0


From 47c55119e2df76182be63c55250345732f4261e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 04/21] fix: let the benchmark drivers run a single step or
 block in parallel

The scans have one element more than there are steps or blocks.
---
 parallel_control/contlin_speedtest.py     | 10 +++++-----
 parallel_control/finite_speedtest.py      | 10 +++++-----
 parallel_control/hjb_grid_1d_speedtest.py |  2 +-
 parallel_control/linear_speedtest.py      | 18 +++++++++---------
 parallel_control/nonlinear_speedtest.py   |  4 ++--
 5 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/parallel_control/contlin_speedtest.py b/parallel_control/contlin_speedtest.py
index 171af4e..41a2ab0 100644
--- a/parallel_control/contlin_speedtest.py
+++ b/parallel_control/contlin_speedtest.py
@@ -207,7 +207,7 @@ def clqt_par_bw(blocks, steps, x0, XT, HT, rT, T, F_f, L_f, X_f, U_f, c_f, H_f,
         Ss3, vs3, Kxs3, ds3: CLQT solution.
     """
     dt, t0, ST, vT = clqt_tf.par_backwardpass_defaults(blocks, steps, XT, HT, rT, T)
-    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks)
+    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks+1)
     return Ss3, vs3, Kxs3, ds3
 
 def clqt_par_bw_speedtest(model, blocks, steps, n_iter=10, device='/CPU:0'):
@@ -258,8 +258,8 @@ def clqt_par_bw_fw(blocks, steps, x0, XT, HT, rT, T, F_f, L_f, X_f, U_f, c_f, H_
         Ss3, vs3, Kxs3, ds3, xs3, us3: CLQT solution.
     """
     dt, t0, ST, vT = clqt_tf.par_backwardpass_defaults(blocks, steps, XT, HT, rT, T)
-    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks)
-    xs3, us3 = clqt_tf.clqt_par_forwardpass(blocks, steps, x0, Kxs3, ds3, dt, t0, F_f, L_f, c_f, forward=True, u_zoh=False, max_parallel=blocks)
+    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks+1)
+    xs3, us3 = clqt_tf.clqt_par_forwardpass(blocks, steps, x0, Kxs3, ds3, dt, t0, F_f, L_f, c_f, forward=True, u_zoh=False, max_parallel=blocks+1)
     return Ss3, vs3, Kxs3, ds3, xs3, us3
 
 def clqt_par_bw_fw_speedtest(model, blocks, steps, n_iter=10, device='/CPU:0'):
@@ -311,8 +311,8 @@ def clqt_par_bw_fwbw(blocks, steps, x0, XT, HT, rT, T, F_f, L_f, X_f, U_f, c_f,
     """
 
     dt, t0, ST, vT = clqt_tf.par_backwardpass_defaults(blocks, steps, XT, HT, rT, T)
-    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks)
-    xs3, us3 = clqt_tf.clqt_par_fwdbwdpass(blocks, steps, x0, Ss3, vs3, Kxs3, ds3, dt, t0, F_f, L_f, X_f, U_f, c_f, H_f, r_f, forward=True, max_parallel=blocks)
+    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks+1)
+    xs3, us3 = clqt_tf.clqt_par_fwdbwdpass(blocks, steps, x0, Ss3, vs3, Kxs3, ds3, dt, t0, F_f, L_f, X_f, U_f, c_f, H_f, r_f, forward=True, max_parallel=blocks+1)
     return Ss3, vs3, Kxs3, ds3, xs3, us3
 
 def clqt_par_bw_fwbw_speedtest(model, blocks, steps, n_iter=10, device='/CPU:0'):
diff --git a/parallel_control/finite_speedtest.py b/parallel_control/finite_speedtest.py
index 5a49c71..47dd201 100644
--- a/parallel_control/finite_speedtest.py
+++ b/parallel_control/finite_speedtest.py
@@ -47,7 +47,7 @@ def fsc_seq_bw_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
 
 @tf.function
 def fsc_par_bw(fs, Ls, LT):
-    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0])
+    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0]+1)
     return us, Vs
 
 def fsc_par_bw_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
@@ -96,8 +96,8 @@ def fsc_seq_bwfw_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
 
 @tf.function
 def fsc_par_bwfw_1(x0, fs, Ls, LT):
-    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0])
-    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_forwardpass(x0, fs, us, max_parallel=fs.shape[0])
+    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0]+1)
+    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_forwardpass(x0, fs, us, max_parallel=fs.shape[0]+1)
     return min_us_tf_par, min_xs_tf_par
 
 def fsc_par_bwfw_1_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
@@ -121,8 +121,8 @@ def fsc_par_bwfw_1_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
 
 @tf.function
 def fsc_par_bwfw_2(x0, fs, Ls, LT):
-    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0])
-    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=fs.shape[0])
+    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0]+1)
+    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=fs.shape[0]+1)
     return min_us_tf_par, min_xs_tf_par
 
 def fsc_par_bwfw_2_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
diff --git a/parallel_control/hjb_grid_1d_speedtest.py b/parallel_control/hjb_grid_1d_speedtest.py
index cf45015..58c3f49 100644
--- a/parallel_control/hjb_grid_1d_speedtest.py
+++ b/parallel_control/hjb_grid_1d_speedtest.py
@@ -166,7 +166,7 @@ def par_assoc(f, L, LT, block_T, blocks, steps, x_grid):
         Vs: Value functions
     """
     block_V = hjb_grid_1d_tf.direct_shooting_block_V(f, L, block_T, steps, x_grid, max_iter=10)
-    Vs = hjb_grid_1d_tf.par_bw_pass(LT, blocks, x_grid, block_V, max_parallel=blocks)
+    Vs = hjb_grid_1d_tf.par_bw_pass(LT, blocks, x_grid, block_V, max_parallel=blocks+1)
     return Vs
 
 def par_assoc_speedtest(model, blocks, steps=10, block_T=0.1, n_iter=10, device='/CPU:0'):
diff --git a/parallel_control/linear_speedtest.py b/parallel_control/linear_speedtest.py
index f543977..27c45cd 100644
--- a/parallel_control/linear_speedtest.py
+++ b/parallel_control/linear_speedtest.py
@@ -94,7 +94,7 @@ def lqt_parallel_bw(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us):
     Returns:
         Ss, vs, Kxs, ds: Value function matrices, vectors, control gains, and offsets.
     """
-    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0])
+    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0]+1)
     return Ss, vs, Kxs, ds
 
 def lqt_parallel_bw_speedtest(lqt_gen, n_iter=10, device='/CPU:0'):
@@ -186,8 +186,8 @@ def lqt_parallel_bwfw_1(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us):
     Returns:
         xs_tf_par1, us_tf_par1: State and control trajectories.
     """
-    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0])
-    xs_tf_par1, us_tf_par1 = lqt_tf.lqt_par_forwardpass(x0_tf, Fs, cs, Ls, Kxs, ds, max_parallel=Fs.shape[0])
+    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0]+1)
+    xs_tf_par1, us_tf_par1 = lqt_tf.lqt_par_forwardpass(x0_tf, Fs, cs, Ls, Kxs, ds, max_parallel=Fs.shape[0]+1)
     return xs_tf_par1, us_tf_par1
 
 def lqt_parallel_bwfw_1_speedtest(lqt_gen, n_iter=10, device='/CPU:0'):
@@ -232,8 +232,8 @@ def lqt_parallel_bwfw_2(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us):
     Returns:
         xs_tf_par2, us_tf_par2: State and control trajectories.
     """
-    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0])
-    xs_tf_par2, us_tf_par2 = lqt_tf.lqt_par_fwdbwdpass(x0_tf, Fs, cs, Ls, Hs, rs, Xs, Us, Ss, vs, Kxs, ds, max_parallel=Fs.shape[0])
+    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0]+1)
+    xs_tf_par2, us_tf_par2 = lqt_tf.lqt_par_fwdbwdpass(x0_tf, Fs, cs, Ls, Hs, rs, Xs, Us, Ss, vs, Kxs, ds, max_parallel=Fs.shape[0]+1)
     return xs_tf_par2, us_tf_par2
 
 def lqt_parallel_bwfw_2_speedtest(lqt_gen, n_iter=10, device='/CPU:0'):
@@ -348,11 +348,11 @@ def lqt_parallel_cond_bwfw_1(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Nc):
         = lqt_tf.lqt_gen_to_canon(Fstar, cstar, Lstar, Hstar, rstar, Xstar, Ustar, Mstar, sstar)
 
     Ss, vs, Kxs_trans, ds_trans \
-        = lqt_tf.lqt_par_backwardpass(Fs_trans, cs_trans, Lstar, Hstar, HT, rstar, rT, Xs_trans, XT, Ustar, max_parallel=Fs_trans.shape[0])
+        = lqt_tf.lqt_par_backwardpass(Fs_trans, cs_trans, Lstar, Hstar, HT, rstar, rT, Xs_trans, XT, Ustar, max_parallel=Fs_trans.shape[0]+1)
 
     Kxs, ds = lqt_tf.lqt_canon_to_gen(Kxs_trans, ds_trans, Hstar, rstar, Ustar, Mstar, sstar)
 
-    xs, us = lqt_tf.lqt_par_forwardpass(x0_tf, Fstar, cstar, Lstar, Kxs, ds, max_parallel=Fs_trans.shape[0])
+    xs, us = lqt_tf.lqt_par_forwardpass(x0_tf, Fstar, cstar, Lstar, Kxs, ds, max_parallel=Fs_trans.shape[0]+1)
 
     us1, xs1 = condensing_tf.convertUX(us, xs, Lambda, cbar, Lbar, Fs.shape[0])
 
@@ -410,11 +410,11 @@ def lqt_parallel_cond_bwfw_2(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Nc):
         = lqt_tf.lqt_gen_to_canon(Fstar, cstar, Lstar, Hstar, rstar, Xstar, Ustar, Mstar, sstar)
 
     Ss, vs, Kxs_trans, ds_trans \
-        = lqt_tf.lqt_par_backwardpass(Fs_trans, cs_trans, Lstar, Hstar, HT, rstar, rT, Xs_trans, XT, Ustar, max_parallel=Fs_trans.shape[0])
+        = lqt_tf.lqt_par_backwardpass(Fs_trans, cs_trans, Lstar, Hstar, HT, rstar, rT, Xs_trans, XT, Ustar, max_parallel=Fs_trans.shape[0]+1)
 
     Kxs, ds = lqt_tf.lqt_canon_to_gen(Kxs_trans, ds_trans, Hstar, rstar, Ustar, Mstar, sstar)
 
-    xs, us = lqt_tf.lqt_par_fwdbwdpass(x0_tf, Fs_trans, cs_trans, Lstar, Hstar, rstar, Xs_trans, Ustar, Ss, vs, Kxs, ds, max_parallel=Fs_trans.shape[0])
+    xs, us = lqt_tf.lqt_par_fwdbwdpass(x0_tf, Fs_trans, cs_trans, Lstar, Hstar, rstar, Xs_trans, Ustar, Ss, vs, Kxs, ds, max_parallel=Fs_trans.shape[0]+1)
 
     us1, xs1 = condensing_tf.convertUX(us, xs, Lambda, cbar, Lbar, Fs.shape[0])
 
diff --git a/parallel_control/nonlinear_speedtest.py b/parallel_control/nonlinear_speedtest.py
index 8e4687f..daf6e3e 100644
--- a/parallel_control/nonlinear_speedtest.py
+++ b/parallel_control/nonlinear_speedtest.py
@@ -96,7 +96,7 @@ def nlqt_iter_par_1(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us):
         xs: Tensor of states.
     """
     for j in range(10):
-       us, xs = nlqt_tf.nlqt_iterate_par_1(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=rs.shape[0])
+       us, xs = nlqt_tf.nlqt_iterate_par_1(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=rs.shape[0]+1)
     return us, xs
 
 def nlqt_iter_par_1_speedtest(nlqt_gen, n_iter=10, device='/CPU:0'):
@@ -153,7 +153,7 @@ def nlqt_iter_par_2(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us):
         xs: Tensor of states.
     """
     for j in range(10):
-        us, xs = nlqt_tf.nlqt_iterate_par_2(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=rs.shape[0])
+        us, xs = nlqt_tf.nlqt_iterate_par_2(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=rs.shape[0]+1)
     return us, xs
 
 def nlqt_iter_par_2_speedtest(nlqt_gen, n_iter=10, device='/CPU:0'):
-- 
2.43.0


From 3e67dd8748e18776145371c120f2a15563397060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 05/21] fix: upwind block value function for negative initial
 states

---
 parallel_control/cnonlin_models_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/cnonlin_models_tf.py b/parallel_control/cnonlin_models_tf.py
index 46e0a6b..dfb4236 100644
--- a/parallel_control/cnonlin_models_tf.py
+++ b/parallel_control/cnonlin_models_tf.py
@@ -116,6 +116,6 @@ def upwind_model_block_V(inf_value, block_dt, x_grid):
 
     a = tf.exp(block_dt)
     cond1 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, x0_mesh)), tf.less_equal(xf_mesh, a * x0_mesh))
-    cond2 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
+    cond2 = tf.logical_and(tf.logical_and(tf.less_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
 
     return tf.where(tf.logical_or(cond1,cond2), zero_mesh, inf_mesh)
-- 
2.43.0


From 9d667b4ff438429f6af915294ab2018fe94ddc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 06/21] fix: one control interval per step in direct shooting

arange(0, T, dt) gives an extra element when T/dt rounds up (e.g. 49 steps).
---
 parallel_control/hjb_grid_1d_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c77e5c0..c821f47 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -53,7 +53,7 @@ def fun_and_con_1(g, L, T, x0, xf, a_vec, b_vec):
         c_vec: Constraint violation vector
     """
     dt = T / a_vec.shape[0]
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = dt * jnp.arange(a_vec.shape[0])
     def body(carry, inp):
         a, b, ti = inp
         def f(xc, t):
@@ -126,7 +126,7 @@ def fun_and_con_2(g, L, T, x0, xf, theta):
         c_vec: Constraint violation vector
     """
     dt = T / (theta.shape[0]-1)
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = dt * jnp.arange(theta.shape[0]-1)
     def body(carry, inp):
         _, prev_u = carry
         b, ti = inp
-- 
2.43.0


From 4f323f4af9139ab332e2bafd570d5a8dddf80275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 07/21] fix: parallel scans must admit a single step,
 observation or block

A scan over T steps has T+1 elements, which zero levels cannot hold when
max_parallel is 1. Same guard as in lqt_tf and clqt_tf; replaces the
caller-side adjustments.
---
 parallel_control/contlin_speedtest.py     | 10 +++++-----
 parallel_control/finite_speedtest.py      | 10 +++++-----
 parallel_control/fsc_tf.py                |  6 +++---
 parallel_control/hjb_grid_1d_speedtest.py |  2 +-
 parallel_control/hjb_grid_1d_tf.py        |  2 +-
 parallel_control/linear_speedtest.py      | 18 ++++++++---------
 parallel_control/nonlinear_speedtest.py   |  4 ++--
 parallel_control/viterbi_tf.py            | 24 +++++++++++------------
 8 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/parallel_control/contlin_speedtest.py b/parallel_control/contlin_speedtest.py
index 41a2ab0..171af4e 100644
--- a/parallel_control/contlin_speedtest.py
+++ b/parallel_control/contlin_speedtest.py
@@ -207,7 +207,7 @@ def clqt_par_bw(blocks, steps, x0, XT, HT, rT, T, F_f, L_f, X_f, U_f, c_f, H_f,
         Ss3, vs3, Kxs3, ds3: CLQT solution.
     """
     dt, t0, ST, vT = clqt_tf.par_backwardpass_defaults(blocks, steps, XT, HT, rT, T)
-    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks+1)
+    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks)
     return Ss3, vs3, Kxs3, ds3
 
 def clqt_par_bw_speedtest(model, blocks, steps, n_iter=10, device='/CPU:0'):
@@ -258,8 +258,8 @@ def clqt_par_bw_fw(blocks, steps, x0, XT, HT, rT, T, F_f, L_f, X_f, U_f, c_f, H_
         Ss3, vs3, Kxs3, ds3, xs3, us3: CLQT solution.
     """
     dt, t0, ST, vT = clqt_tf.par_backwardpass_defaults(blocks, steps, XT, HT, rT, T)
-    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks+1)
-    xs3, us3 = clqt_tf.clqt_par_forwardpass(blocks, steps, x0, Kxs3, ds3, dt, t0, F_f, L_f, c_f, forward=True, u_zoh=False, max_parallel=blocks+1)
+    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks)
+    xs3, us3 = clqt_tf.clqt_par_forwardpass(blocks, steps, x0, Kxs3, ds3, dt, t0, F_f, L_f, c_f, forward=True, u_zoh=False, max_parallel=blocks)
     return Ss3, vs3, Kxs3, ds3, xs3, us3
 
 def clqt_par_bw_fw_speedtest(model, blocks, steps, n_iter=10, device='/CPU:0'):
@@ -311,8 +311,8 @@ def clqt_par_bw_fwbw(blocks, steps, x0, XT, HT, rT, T, F_f, L_f, X_f, U_f, c_f,
     """
 
     dt, t0, ST, vT = clqt_tf.par_backwardpass_defaults(blocks, steps, XT, HT, rT, T)
-    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks+1)
-    xs3, us3 = clqt_tf.clqt_par_fwdbwdpass(blocks, steps, x0, Ss3, vs3, Kxs3, ds3, dt, t0, F_f, L_f, X_f, U_f, c_f, H_f, r_f, forward=True, max_parallel=blocks+1)
+    Ss3, vs3, Kxs3, ds3 = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F_f, L_f, X_f, U_f, c_f, H_f, r_f, max_parallel=blocks)
+    xs3, us3 = clqt_tf.clqt_par_fwdbwdpass(blocks, steps, x0, Ss3, vs3, Kxs3, ds3, dt, t0, F_f, L_f, X_f, U_f, c_f, H_f, r_f, forward=True, max_parallel=blocks)
     return Ss3, vs3, Kxs3, ds3, xs3, us3
 
 def clqt_par_bw_fwbw_speedtest(model, blocks, steps, n_iter=10, device='/CPU:0'):
diff --git a/parallel_control/finite_speedtest.py b/parallel_control/finite_speedtest.py
index 47dd201..5a49c71 100644
--- a/parallel_control/finite_speedtest.py
+++ b/parallel_control/finite_speedtest.py
@@ -47,7 +47,7 @@ def fsc_seq_bw_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
 
 @tf.function
 def fsc_par_bw(fs, Ls, LT):
-    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0]+1)
+    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0])
     return us, Vs
 
 def fsc_par_bw_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
@@ -96,8 +96,8 @@ def fsc_seq_bwfw_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
 
 @tf.function
 def fsc_par_bwfw_1(x0, fs, Ls, LT):
-    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0]+1)
-    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_forwardpass(x0, fs, us, max_parallel=fs.shape[0]+1)
+    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0])
+    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_forwardpass(x0, fs, us, max_parallel=fs.shape[0])
     return min_us_tf_par, min_xs_tf_par
 
 def fsc_par_bwfw_1_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
@@ -121,8 +121,8 @@ def fsc_par_bwfw_1_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
 
 @tf.function
 def fsc_par_bwfw_2(x0, fs, Ls, LT):
-    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0]+1)
-    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=fs.shape[0]+1)
+    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0])
+    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=fs.shape[0])
     return min_us_tf_par, min_xs_tf_par
 
 def fsc_par_bwfw_2_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
diff --git a/parallel_control/fsc_tf.py b/parallel_control/fsc_tf.py
index f4f77c2..b546f10 100644
--- a/parallel_control/fsc_tf.py
+++ b/parallel_control/fsc_tf.py
@@ -192,7 +192,7 @@ def fsc_par_backwardpass(fs, Ls, LT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(fsc_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -273,7 +273,7 @@ def fsc_par_forwardpass(x0, fs, us, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_f,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     min_xs = elems[...,0]
 #    min_us = tf.gather_nd(us, tf.expand_dims(min_xs[:-1],-1), batch_dims=1)
@@ -342,7 +342,7 @@ def fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_V,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vfs = elems[:,0,:]
     min_xs = tf.argmin(Vfs + Vs, axis=-1, output_type=fs.dtype)
diff --git a/parallel_control/hjb_grid_1d_speedtest.py b/parallel_control/hjb_grid_1d_speedtest.py
index 58c3f49..cf45015 100644
--- a/parallel_control/hjb_grid_1d_speedtest.py
+++ b/parallel_control/hjb_grid_1d_speedtest.py
@@ -166,7 +166,7 @@ def par_assoc(f, L, LT, block_T, blocks, steps, x_grid):
         Vs: Value functions
     """
     block_V = hjb_grid_1d_tf.direct_shooting_block_V(f, L, block_T, steps, x_grid, max_iter=10)
-    Vs = hjb_grid_1d_tf.par_bw_pass(LT, blocks, x_grid, block_V, max_parallel=blocks+1)
+    Vs = hjb_grid_1d_tf.par_bw_pass(LT, blocks, x_grid, block_V, max_parallel=blocks)
     return Vs
 
 def par_assoc_speedtest(model, blocks, steps=10, block_T=0.1, n_iter=10, device='/CPU:0'):
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 57b50f4..9f066ea 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -480,7 +480,7 @@ def par_bw_pass(LT, blocks, fd_x_grid, block_V, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(combine_V_interp_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
     return Vs
diff --git a/parallel_control/linear_speedtest.py b/parallel_control/linear_speedtest.py
index 27c45cd..f543977 100644
--- a/parallel_control/linear_speedtest.py
+++ b/parallel_control/linear_speedtest.py
@@ -94,7 +94,7 @@ def lqt_parallel_bw(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us):
     Returns:
         Ss, vs, Kxs, ds: Value function matrices, vectors, control gains, and offsets.
     """
-    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0]+1)
+    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0])
     return Ss, vs, Kxs, ds
 
 def lqt_parallel_bw_speedtest(lqt_gen, n_iter=10, device='/CPU:0'):
@@ -186,8 +186,8 @@ def lqt_parallel_bwfw_1(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us):
     Returns:
         xs_tf_par1, us_tf_par1: State and control trajectories.
     """
-    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0]+1)
-    xs_tf_par1, us_tf_par1 = lqt_tf.lqt_par_forwardpass(x0_tf, Fs, cs, Ls, Kxs, ds, max_parallel=Fs.shape[0]+1)
+    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0])
+    xs_tf_par1, us_tf_par1 = lqt_tf.lqt_par_forwardpass(x0_tf, Fs, cs, Ls, Kxs, ds, max_parallel=Fs.shape[0])
     return xs_tf_par1, us_tf_par1
 
 def lqt_parallel_bwfw_1_speedtest(lqt_gen, n_iter=10, device='/CPU:0'):
@@ -232,8 +232,8 @@ def lqt_parallel_bwfw_2(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us):
     Returns:
         xs_tf_par2, us_tf_par2: State and control trajectories.
     """
-    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0]+1)
-    xs_tf_par2, us_tf_par2 = lqt_tf.lqt_par_fwdbwdpass(x0_tf, Fs, cs, Ls, Hs, rs, Xs, Us, Ss, vs, Kxs, ds, max_parallel=Fs.shape[0]+1)
+    Ss, vs, Kxs, ds = lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=Fs.shape[0])
+    xs_tf_par2, us_tf_par2 = lqt_tf.lqt_par_fwdbwdpass(x0_tf, Fs, cs, Ls, Hs, rs, Xs, Us, Ss, vs, Kxs, ds, max_parallel=Fs.shape[0])
     return xs_tf_par2, us_tf_par2
 
 def lqt_parallel_bwfw_2_speedtest(lqt_gen, n_iter=10, device='/CPU:0'):
@@ -348,11 +348,11 @@ def lqt_parallel_cond_bwfw_1(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Nc):
         = lqt_tf.lqt_gen_to_canon(Fstar, cstar, Lstar, Hstar, rstar, Xstar, Ustar, Mstar, sstar)
 
     Ss, vs, Kxs_trans, ds_trans \
-        = lqt_tf.lqt_par_backwardpass(Fs_trans, cs_trans, Lstar, Hstar, HT, rstar, rT, Xs_trans, XT, Ustar, max_parallel=Fs_trans.shape[0]+1)
+        = lqt_tf.lqt_par_backwardpass(Fs_trans, cs_trans, Lstar, Hstar, HT, rstar, rT, Xs_trans, XT, Ustar, max_parallel=Fs_trans.shape[0])
 
     Kxs, ds = lqt_tf.lqt_canon_to_gen(Kxs_trans, ds_trans, Hstar, rstar, Ustar, Mstar, sstar)
 
-    xs, us = lqt_tf.lqt_par_forwardpass(x0_tf, Fstar, cstar, Lstar, Kxs, ds, max_parallel=Fs_trans.shape[0]+1)
+    xs, us = lqt_tf.lqt_par_forwardpass(x0_tf, Fstar, cstar, Lstar, Kxs, ds, max_parallel=Fs_trans.shape[0])
 
     us1, xs1 = condensing_tf.convertUX(us, xs, Lambda, cbar, Lbar, Fs.shape[0])
 
@@ -410,11 +410,11 @@ def lqt_parallel_cond_bwfw_2(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Nc):
         = lqt_tf.lqt_gen_to_canon(Fstar, cstar, Lstar, Hstar, rstar, Xstar, Ustar, Mstar, sstar)
 
     Ss, vs, Kxs_trans, ds_trans \
-        = lqt_tf.lqt_par_backwardpass(Fs_trans, cs_trans, Lstar, Hstar, HT, rstar, rT, Xs_trans, XT, Ustar, max_parallel=Fs_trans.shape[0]+1)
+        = lqt_tf.lqt_par_backwardpass(Fs_trans, cs_trans, Lstar, Hstar, HT, rstar, rT, Xs_trans, XT, Ustar, max_parallel=Fs_trans.shape[0])
 
     Kxs, ds = lqt_tf.lqt_canon_to_gen(Kxs_trans, ds_trans, Hstar, rstar, Ustar, Mstar, sstar)
 
-    xs, us = lqt_tf.lqt_par_fwdbwdpass(x0_tf, Fs_trans, cs_trans, Lstar, Hstar, rstar, Xs_trans, Ustar, Ss, vs, Kxs, ds, max_parallel=Fs_trans.shape[0]+1)
+    xs, us = lqt_tf.lqt_par_fwdbwdpass(x0_tf, Fs_trans, cs_trans, Lstar, Hstar, rstar, Xs_trans, Ustar, Ss, vs, Kxs, ds, max_parallel=Fs_trans.shape[0])
 
     us1, xs1 = condensing_tf.convertUX(us, xs, Lambda, cbar, Lbar, Fs.shape[0])
 
diff --git a/parallel_control/nonlinear_speedtest.py b/parallel_control/nonlinear_speedtest.py
index daf6e3e..8e4687f 100644
--- a/parallel_control/nonlinear_speedtest.py
+++ b/parallel_control/nonlinear_speedtest.py
@@ -96,7 +96,7 @@ def nlqt_iter_par_1(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us):
         xs: Tensor of states.
     """
     for j in range(10):
-       us, xs = nlqt_tf.nlqt_iterate_par_1(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=rs.shape[0]+1)
+       us, xs = nlqt_tf.nlqt_iterate_par_1(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=rs.shape[0])
     return us, xs
 
 def nlqt_iter_par_1_speedtest(nlqt_gen, n_iter=10, device='/CPU:0'):
@@ -153,7 +153,7 @@ def nlqt_iter_par_2(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us):
         xs: Tensor of states.
     """
     for j in range(10):
-        us, xs = nlqt_tf.nlqt_iterate_par_2(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=rs.shape[0]+1)
+        us, xs = nlqt_tf.nlqt_iterate_par_2(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=rs.shape[0])
     return us, xs
 
 def nlqt_iter_par_2_speedtest(nlqt_gen, n_iter=10, device='/CPU:0'):
diff --git a/parallel_control/viterbi_tf.py b/parallel_control/viterbi_tf.py
index 7a80a95..f99de9b 100644
--- a/parallel_control/viterbi_tf.py
+++ b/parallel_control/viterbi_tf.py
@@ -97,9 +97,9 @@ def viterbi_fsc_par_bwfw(fs, Ls, LT):
         v_map: MAP state sequence.
         Vs_vit: Viterbi value functions.
     """
-    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0]+1)
+    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0])
     x0 = tf.argmin(Vs[0], axis=-1, output_type=fs.dtype)
-    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_forwardpass(x0, fs, us, max_parallel=fs.shape[0]+1)
+    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_forwardpass(x0, fs, us, max_parallel=fs.shape[0])
     return get_viterbi_from_fsc(min_xs_tf_par, Vs)
 
 @tf.function #(reduce_retracing=True)
@@ -116,9 +116,9 @@ def viterbi_fsc_par_bwfwbw(fs, Ls, LT):
         Vs_vit: Viterbi value functions.
     """
 
-    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0]+1)
+    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT, max_parallel=fs.shape[0])
     x0 = tf.argmin(Vs[0], axis=-1, output_type=fs.dtype)
-    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=fs.shape[0]+1)
+    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=fs.shape[0])
     return get_viterbi_from_fsc(min_xs_tf_par, Vs)
 
 ###########################################################################
@@ -373,7 +373,7 @@ def viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=10000):
     elems1 = viterbi_par_forwardpass_init(prior, Pi, Po, ys)
     elems2 = tfp.math.scan_associative(viterbi_par_comb_V,
                                       elems1,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
     Ls = elems1[1:]
     Vs = elems2[:, 0, :]
 
@@ -428,7 +428,7 @@ def viterbi_par_backwardpass(us, VT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_f,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     xs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -449,8 +449,8 @@ def viterbi_par_fwbw(prior, Pi, Po, ys):
         xs: Optimal state sequence.
         Vs: Viterbi value functions.
     """
-    us, Vs = viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=ys.shape[0]+1)
-    xs = viterbi_par_backwardpass(us, Vs[-1, :], max_parallel=ys.shape[0]+1)
+    us, Vs = viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=ys.shape[0])
+    xs = viterbi_par_backwardpass(us, Vs[-1, :], max_parallel=ys.shape[0])
     return xs, Vs
 
 
@@ -469,7 +469,7 @@ def viterbi_seqpar_fwbw(prior, Pi, Po, ys):
         Vs: Viterbi value functions.
     """
     us, Vs = viterbi_seq_forwardpass(prior, Pi, Po, ys)
-    xs = viterbi_par_backwardpass(us, Vs[-1, :], max_parallel=ys.shape[0]+1)
+    xs = viterbi_par_backwardpass(us, Vs[-1, :], max_parallel=ys.shape[0])
     return xs, Vs
 
 
@@ -512,7 +512,7 @@ def viterbi_par_bwfwpass(prior, Pi, Po, ys, Vs, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     elems = tf.reverse(rev_elems, axis=[0])
 
@@ -536,8 +536,8 @@ def viterbi_par_fwbwfw(prior, Pi, Po, ys):
         v_map: Optimal state sequence.
         Vs: Viterbi value functions.
     """
-    us, Vs = viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=ys.shape[0]+1)
-    v_map, Vfs = viterbi_par_bwfwpass(prior, Pi, Po, ys, Vs, max_parallel=ys.shape[0]+1)
+    us, Vs = viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=ys.shape[0])
+    v_map, Vfs = viterbi_par_bwfwpass(prior, Pi, Po, ys, Vs, max_parallel=ys.shape[0])
     return v_map, Vs
 
 
-- 
2.43.0


From 14ec9f9ed6104d3813dc244ce4c55d6c8fbe7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 08/21] fix: expand omitted H, r and M to the reference
 dimension of each step

With a time-varying reference dimension the defaults had the size of the
first step only and the problem was refused.
---
 parallel_control/lqt_np.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/lqt_np.py b/parallel_control/lqt_np.py
index b6aa31a..d6e49bc 100755
--- a/parallel_control/lqt_np.py
+++ b/parallel_control/lqt_np.py
@@ -505,9 +505,9 @@ class LQT:
         if c is None:
             c = np.zeros(xdim)
         if H is None:
-            H = np.eye(rdim, xdim)
+            H = [np.eye(Xk.shape[0], xdim) for Xk in X] if isinstance(X, list) else np.eye(rdim, xdim)
         if r is None:
-            r = np.zeros(rdim)
+            r = [np.zeros(Xk.shape[0]) for Xk in X] if isinstance(X, list) else np.zeros(rdim)
         if HT is None:
             HT = np.eye(rdim, xdim)
         if rT is None:
@@ -517,7 +517,7 @@ class LQT:
         if s is None:
             s = np.zeros(udim)
         if M is None:
-            M = np.zeros((rdim, udim))
+            M = [np.zeros((Xk.shape[0], udim)) for Xk in X] if isinstance(X, list) else np.zeros((rdim, udim))
 
         # This looks a bit clumsy indeed:
         if not isinstance(F, list):
-- 
2.43.0


From 088404466c8a6df7a5a175811e082cdc38408b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 09/21] fix: condense blocks whose outputs don't determine
 their initial state

The stacked block cost is then singular, which happens e.g. with the tracking
model when the last block has a single step; the linear solve failed.
---
 parallel_control/condensing_np.py | 5 ++++-
 parallel_control/condensing_tf.py | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parallel_control/condensing_np.py b/parallel_control/condensing_np.py
index d63a09a..e62de13 100644
--- a/parallel_control/condensing_np.py
+++ b/parallel_control/condensing_np.py
@@ -138,7 +138,10 @@ class LQTCondenser:
 
             tmp = np.zeros((rdim+udim)*Nc)
             tmp[0:(rdim*Nc)] = Hbar @ cbar
-            rsstar = linalg.solve(XUMstar, trans.T @ XUbar @ (rsbar - tmp), assume_a='pos')
+            # XUMstar is singular when the outputs of the block don't determine its
+            # initial state, any solution will do as the right hand side is in its range
+            rsstar, _, _, _ = linalg.lstsq(XUMstar, trans.T @ XUbar @ (rsbar - tmp),
+                                           cond=10 * XUMstar.shape[0] * np.finfo(XUMstar.dtype).eps)
 
             Xstar = XUMstar[0:xdim,0:xdim]
             Mstar = XUMstar[0:xdim,xdim:]
diff --git a/parallel_control/condensing_tf.py b/parallel_control/condensing_tf.py
index bb9ae9d..84c4407 100644
--- a/parallel_control/condensing_tf.py
+++ b/parallel_control/condensing_tf.py
@@ -121,7 +121,12 @@ def condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc):
 
     tmp = tf.concat([mv(Hbar, cbar), tf.zeros((Fs_blocks.shape[0], Lbar.shape[-1]), dtype=Fs_blocks.dtype)], 1)
     tmp = mv(trans, mv(XUbar, rsbar - tmp), transpose_a=True)
-    rsstar = tf.linalg.solve(XUMstar, tf.expand_dims(tmp,-1))[..., 0]
+    # XUMstar is singular when the outputs of the block don't determine its initial
+    # state, any solution will do as the right hand side is in its range
+    w, V = tf.linalg.eigh(XUMstar)
+    w_tol = 10 * XUMstar.shape[-1] * np.finfo(XUMstar.dtype.as_numpy_dtype).eps * w[:,-1:]
+    w_inv = tf.where(w > w_tol, 1.0 / tf.where(w > w_tol, w, tf.ones_like(w)), tf.zeros_like(w))
+    rsstar = mv(V, w_inv * mv(V, tmp, transpose_a=True))
 
     rstar = rsstar[:,0:Fs_blocks.shape[-1]]
     sstar = rsstar[:,Fs_blocks.shape[-1]:]
-- 
2.43.0


From 7c884e379eb71e29a01820cf2d560c3f21cdfc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 10/21] fix: interpolated combination of flat minima and
 unreachable neighbors

---
 parallel_control/hjb_grid_1d_np.py | 27 +++++++++++++++++++--------
 parallel_control/hjb_grid_1d_tf.py | 21 ++++++++++++++++++---
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c821f47..1c620bc 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -218,6 +218,23 @@ def combine_V2(Vij, Vjk):
     Vik = jnp.take_along_axis(Vsum, j, axis=1)
     return Vik[:,0,:]
 
+def interp_min(fm1, fi, fp1):
+    """ Refine a discrete minimum with quadratic interpolation. The minimum is not
+    refined when it is flat or when either of the neighbors is unreachable.
+
+    Parameters:
+        fm1: Value at the previous grid point
+        fi: Value at the discrete minimum
+        fp1: Value at the next grid point
+
+    Returns:
+        f: Refined minimum value
+    """
+    den = fp1 + fm1 - 2.0 * fi
+    ok = (den > 0.0) & (jnp.maximum(fm1, fp1) < 0.5 * _HJB_GRID_NP_INFTY)
+    num = jnp.where(ok, fp1 - fm1, 0.0)
+    return fi - num**2 / jnp.where(ok, den, 1.0) / 8.0
+
 def combine_V_interp(Vij, Vjk):
     """ Combine two value functions with interpolation.
 
@@ -229,9 +246,6 @@ def combine_V_interp(Vij, Vjk):
         Vik: Value function for i -> k
     """
 
-#    lam = 0.1
-#    lam = 1e-6
-    lam = 0.0
     Vsum = jnp.expand_dims(Vij,-1) + jnp.expand_dims(Vjk,0)
     j = jnp.argmin(Vsum, axis=1, keepdims=True)
     jm1 = jnp.abs(j - 1)  # Converts -1 to 1
@@ -242,8 +256,7 @@ def combine_V_interp(Vij, Vjk):
     fm1 = jnp.take_along_axis(Vsum, jm1, axis=1)
     fp1 = jnp.take_along_axis(Vsum, jp1, axis=1)
 
-    Vik = fi - (fp1 - fm1)**2 / (fp1 + fm1 - 2.0 * fi + lam) / 8.0
-#    Vik = fi - (fp1 - fm1) ** 2 / (jnp.abs(fp1 + fm1 - 2.0 * fi) + lam) / 8.0
+    Vik = interp_min(fm1, fi, fp1)
 
     return Vik[:,0,:]
 
@@ -257,8 +270,6 @@ def combine_V_interp2(Vij, Vjk):
     Returns:
         Vik: Value function for i -> k
     """
-#    lam = 1e-6
-    lam = 0.0
     Vik = np.zeros_like(Vij)
     for i in range(Vij.shape[0]):
         for k in range(Vjk.shape[1]):
@@ -267,7 +278,7 @@ def combine_V_interp2(Vij, Vjk):
             jm1 = jnp.abs(j-1) # Converts -1 to 1
             nm1 = f.shape[0]-1
             jp1 = nm1 - jnp.abs(nm1-j-1)  # Converts n to n-2
-            Vik[i,k] = f[j] - (f[jp1] - f[jm1])**2 / (f[jp1] + f[jm1] - 2.0 * f[j] + lam) / 8.0
+            Vik[i,k] = interp_min(f[jm1], f[j], f[jp1])
 #            if j == 0 or j == f.shape[0]-1:
 #                Vik[i,k] = f[j]
 #            else:
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 9f066ea..0916ec4 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -266,6 +266,23 @@ def combine_V_rev(Vjk, Vij):
     """
     return combine_V(Vij, Vjk)
 
+def interp_min(fm1, fi, fp1):
+    """ Refine a discrete minimum with quadratic interpolation. The minimum is not
+    refined when it is flat or when either of the neighbors is unreachable.
+
+    Parameters:
+        fm1: Value at the previous grid point
+        fi: Value at the discrete minimum
+        fp1: Value at the next grid point
+
+    Returns:
+        f: Refined minimum value
+    """
+    den = fp1 + fm1 - 2.0 * fi
+    ok = tf.logical_and(den > 0.0, tf.math.maximum(fm1, fp1) < 0.5 * _HJB_GRID_TF_INFTY)
+    num = tf.where(ok, fp1 - fm1, tf.zeros_like(fi))
+    return fi - num**2 / tf.where(ok, den, tf.ones_like(den)) / 8.0
+
 def combine_V_interp(Vij, Vjk):
     """ Combine two value functions with interpolation.
 
@@ -276,8 +293,6 @@ def combine_V_interp(Vij, Vjk):
     Returns:
         Vik: Value function for i -> k
     """
-    lam = tf.constant(0.0, dtype=Vij.dtype)
-
     Vsum = tf.expand_dims(Vij,-1) + tf.expand_dims(Vjk,1)
     j = tf.expand_dims(tf.math.argmin(Vsum, axis=2), 2)
     jT = tf.transpose(j, perm=[0,1,3,2])
@@ -292,7 +307,7 @@ def combine_V_interp(Vij, Vjk):
     fm1 = tf.gather_nd(VsumT, jTm1, batch_dims=3)
     fp1 = tf.gather_nd(VsumT, jTp1, batch_dims=3)
 
-    return fi - (fp1 - fm1)**2 / (fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam) / tf.constant(8.0, dtype=Vij.dtype)
+    return interp_min(fm1, fi, fp1)
 
 def combine_V_interp_rev(Vjk, Vij):
     """ Combine two value functions with interpolation in reversed order.
-- 
2.43.0


From 7e9cf871ef4dc85f91792669c6ac2db7088dcf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 11/21] fix: SQP convergence criterion must include the
 constraint violation

---
 parallel_control/sqp_np.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parallel_control/sqp_np.py b/parallel_control/sqp_np.py
index 4ce1166..5b3a018 100644
--- a/parallel_control/sqp_np.py
+++ b/parallel_control/sqp_np.py
@@ -45,7 +45,7 @@ def local_eq(fun, con, x0, max_iter=100, tol=1e-6, quiet=False):
         con: Equality constraint function.
         x0: Initial guess.
         max_iter: Maximum number of iterations.
-        tol: Tolerance for stopping.
+        tol: Tolerance for the norm of the Lagrangian gradient and constraint violation.
         quiet: If True, do not print anything.
 
     Returns:
@@ -86,7 +86,7 @@ def local_eq(fun, con, x0, max_iter=100, tol=1e-6, quiet=False):
         lam = hlam
 
         iter = iter + 1
-        crit = jnp.linalg.norm(Jl)
+        crit = jnp.linalg.norm(jnp.concatenate((Jl, c)))
 
 
         if not quiet:
@@ -225,7 +225,7 @@ def bfgs_eq_bt(fun, con, x0, max_iter=10, tol=1e-6, max_backtrack=10, damped=Tru
         con: Equality constraint function.
         x0: Initial guess.
         max_iter: Maximum number of iterations.
-        tol: Tolerance for the norm of the Lagrangian gradient.
+        tol: Tolerance for the norm of the Lagrangian gradient and constraint violation.
         max_backtrack: Maximum number of backtracking steps.
         damped: If True, use damped BFGS update.
         quiet: If True, do not print anything.
@@ -293,7 +293,7 @@ def bfgs_eq_bt(fun, con, x0, max_iter=10, tol=1e-6, max_backtrack=10, damped=Tru
             B = bfgs_basic_update(B, s, y, quiet)
 
         iter = iter + 1
-        crit = jnp.linalg.norm(Jl_new)
+        crit = jnp.linalg.norm(jnp.concatenate((Jl_new, con(x))))
 
         if not quiet:
             print(f'{iter} / {max_iter} : x={x}, |Jl|={jnp.linalg.norm(Jl_new)}, alpha={alf}')
-- 
2.43.0


From 0e234010915040507353a4262d5e5033fed93418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 12/21] fix: discretize integer-typed systems without
 truncating gains

---
 parallel_control/disc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parallel_control/disc.py b/parallel_control/disc.py
index 2f14e5f..28bda46 100644
--- a/parallel_control/disc.py
+++ b/parallel_control/disc.py
@@ -31,9 +31,11 @@ def lti_disc(F, L, Qc=None, dt=1.0):
     if np.isscalar(Qc):
         Qc = np.array([[Qc]])
 
-    Phi = np.zeros((2*n,2*n), dtype=F.dtype)
+    LQL = L @ Qc @ L.T
+
+    Phi = np.zeros((2*n,2*n), dtype=np.result_type(F, LQL))
     Phi[ 0:n,  0:n] = F
-    Phi[ 0:n,  n: ] = L @ Qc @ L.T
+    Phi[ 0:n,  n: ] = LQL
     Phi[n:2*n, n: ] = -F.T
 
     EPhi = linalg.expm(Phi * dt)
@@ -69,7 +71,7 @@ def lti_disc_u(F, L, G=None, Qc=None, dt=1.0):
 
     m = G.shape[1]
 
-    Psi = np.zeros((n+m,n+m), dtype=F.dtype)
+    Psi = np.zeros((n+m,n+m), dtype=np.result_type(F, G))
     Psi[0:n, 0:n] = F
     Psi[0:n, n: ] = G
 
-- 
2.43.0


From f39c2f26d375e56abcd4dfcb95ffa1f4d7ec7369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 13/21] fix: state paths must not use the dtype of the
 observations

---
 parallel_control/viterbi_np.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/viterbi_np.py b/parallel_control/viterbi_np.py
index 187765a..27563a3 100644
--- a/parallel_control/viterbi_np.py
+++ b/parallel_control/viterbi_np.py
@@ -50,7 +50,7 @@ class Viterbi_np:
             V = temp.max(axis=0)
             V_list[k+1, :] = V
 
-        v_map = np.zeros((V_list.shape[0],), dtype=y_list.dtype)
+        v_map = np.zeros((V_list.shape[0],), dtype=int)
         last = True
         x = 0
         for k in reversed(range(V_list.shape[0])):
@@ -86,7 +86,7 @@ class Viterbi_np:
             V = temp.min(axis=0)
             V_list[k+1, :] = V
 
-        v_map = np.zeros((V_list.shape[0],), dtype=y_list.dtype)
+        v_map = np.zeros((V_list.shape[0],), dtype=int)
         last = True
         x = 0
         for k in reversed(range(V_list.shape[0])):
@@ -130,7 +130,7 @@ class Viterbi_np:
             V_list[k+1, :] = V
             u_list[k, :] = u
 
-        v_map = np.zeros((V_list.shape[0],), dtype=y_list.dtype)
+        v_map = np.zeros((V_list.shape[0],), dtype=int)
         x = np.argmin(V_list[-1, :])
         v_map[-1] = x
         for k in reversed(range(y_list.shape[0])):
-- 
2.43.0


From 848e71747fbfecbca7e5dbabd0575958a0760e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 14/21] fix: horizon of the mass model must not lose a step to
 rounding

---
 parallel_control/mass_model_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/mass_model_np.py b/parallel_control/mass_model_np.py
index ba54c28..5f58c97 100644
--- a/parallel_control/mass_model_np.py
+++ b/parallel_control/mass_model_np.py
@@ -78,7 +78,7 @@ class MassModel:
         Qc = np.eye(self.Lc.shape[1])
         F, L, Q = disc.lti_disc_u(self.Fc, self.Lc, G, Qc, dt)
 
-        T = int(Tf/dt)
+        T = int(Tf / dt + 1e-6)
 
         lqt = lqt_np.LQT.checkAndExpand(F, L, self.X, self.U, self.XT, T=T)
 
-- 
2.43.0


From 7548578ee7c24edfbf9a7b36f770a79eb8a0f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:55 +0000
Subject: [PATCH 15/21] fix: refuse arrays with a wrong number of dimensions at
 construction

---
 parallel_control/fsc_np.py | 8 +++++---
 parallel_control/lqt_np.py | 8 ++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index bfc0f5d..cd20967 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -145,6 +145,8 @@ class FSC:
         if len(f) != len(L):
             raise ValueError(f"Lengths of f ({len(f)}) and L ({len(L)}) lists don't match.")
 
+        if f[0].ndim != 2:
+            raise ValueError(f"Shape of f[0] ({f[0].shape}) is not as expected (xdim,udim).")
         xdim = f[0].shape[0]
         udim = f[0].shape[1]
 
@@ -152,12 +154,12 @@ class FSC:
             LT = np.ones((xdim,), dtype=L[0].dtype)
 
         for k in range(T):
-            if (f[k].shape[0] != xdim) or (f[k].shape[1] != udim):
+            if f[k].shape != (xdim, udim):
                 raise ValueError(f"Shape of f[{k}] ({f[k].shape}) is not as expected ({xdim},{udim}).")
-            if (L[k].shape[0] != xdim) or (L[k].shape[1] != udim):
+            if L[k].shape != (xdim, udim):
                 raise ValueError(f"Shape of L[{k}] ({L[k].shape}) is not as expected ({xdim},{udim}).")
 
-        if f[0].shape[0] != LT.shape[0]:
+        if LT.shape != (xdim,):
             raise ValueError(f"Shapes of f[0] ({f[0].shape}) and LT ({LT.shape}) don't match.")
 
         return cls(f, L, LT)
diff --git a/parallel_control/lqt_np.py b/parallel_control/lqt_np.py
index d6e49bc..c6b4e0a 100755
--- a/parallel_control/lqt_np.py
+++ b/parallel_control/lqt_np.py
@@ -489,10 +489,10 @@ class LQT:
         else:
             xdim = F.shape[0]
 
-        if isinstance(L, list):
-            udim = L[0].shape[1]
-        else:
-            udim = L.shape[1]
+        L0 = L[0] if isinstance(L, list) else L
+        if L0.ndim != 2:
+            raise ValueError(f"L has wrong shape {L0.shape}, should have two dimensions")
+        udim = L0.shape[1]
 
         if isinstance(X, list):
             rdim = X[0].shape[0]
-- 
2.43.0


From a0b46f09534b46ffa0d865fe87ad052e4a7c45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 16/21] fix: nonlinear tracker must not overwrite the dynamics
 of the caller's problem

---
 parallel_control/nlqt_np.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parallel_control/nlqt_np.py b/parallel_control/nlqt_np.py
index cb46895..8657def 100644
--- a/parallel_control/nlqt_np.py
+++ b/parallel_control/nlqt_np.py
@@ -4,6 +4,8 @@ Numpy-based Nonlinear (iterated) Linear Quadratic Tracker.
 @author: Simo Särkkä
 """
 
+import copy
+
 ###########################################################################
 #
 # Nonlinear iterated Linear Quadratic Tracker
@@ -19,7 +21,11 @@ class NLQT:
             lqt: Linear quadratic tracker.
             model: NonlinearModel object.
         """
-        self.lqt = lqt
+        # The dynamics get overwritten when linearizing, so keep own copies of them
+        self.lqt = copy.copy(lqt)
+        self.lqt.F = list(lqt.F)
+        self.lqt.c = list(lqt.c)
+        self.lqt.L = list(lqt.L)
         self.model = model
 
     def linearize(self, u_list, x_list):
-- 
2.43.0


From 894f34b1130ac0cd53f4f4ae8207f04cfd12e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 17/21] fix: keep the discrete Riccati recursion symmetric over
 long horizons

The value matrix was propagated without symmetrization, so that the
antisymmetric part of rounding errors grew geometrically for unstable
dynamics and made the factorization fail or return wrong gains.
---
 parallel_control/lqt_np.py | 3 +++
 parallel_control/lqt_tf.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/parallel_control/lqt_np.py b/parallel_control/lqt_np.py
index c6b4e0a..3fdf557 100755
--- a/parallel_control/lqt_np.py
+++ b/parallel_control/lqt_np.py
@@ -147,6 +147,7 @@ class LQR:
             Kx = linalg.solve(self.U + self.L.T @ S @ self.L,
                               self.L.T @ S @ self.F, assume_a='pos')
             S = self.F.T @ S @ (self.F - self.L @ Kx) + self.X
+            S = 0.5 * (S + S.T)
             S_list.append(S)
             Kx_list.append(Kx)
 
@@ -360,6 +361,7 @@ class LQR:
             K = linalg.solve(self.U + self.L.T @ S @ self.L,
                              self.L.T @ S @ self.F, assume_a='pos')
             S = self.F.T @ S @ (self.F - self.L @ K) + self.X
+            S = 0.5 * (S + S.T)
 
         return K, S
 
@@ -645,6 +647,7 @@ class LQT:
             S = self.H[k].T @ self.X[k] @ self.H[k] \
                 - self.H[k].T @ self.M[k] @ self.Z[k] @ Kx \
                 + self.F[k].T @ S @ (self.F[k] - self.L[k] @ Kx)
+            S = 0.5 * (S + S.T)
             Kx_list.append(Kx)
             d_list.append(d)
             S_list.append(S)
diff --git a/parallel_control/lqt_tf.py b/parallel_control/lqt_tf.py
index 9825e9d..cceeadd 100644
--- a/parallel_control/lqt_tf.py
+++ b/parallel_control/lqt_tf.py
@@ -135,6 +135,7 @@ def lqt_seq_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us):
         d  = tf.linalg.cholesky_solve(CF, tf.expand_dims(rh,-1))[...,0]
         v  = mv(H, mv(X, r), transpose_a=True) + mv(F - mm(L,Kx), v - mv(S, c), transpose_a=True)
         S  = mm(F, mm(S, F - mm(L,Kx)), transpose_a=True) + mm(H, mm(X, H), transpose_a=True)
+        S  = 0.5 * (S + tf.transpose(S))
 
         return S, v, Kx, d
 
-- 
2.43.0


From 4d07bfee3ce8c78e5f4488174b54f2d487296778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 18/21] fix: decide the rank of a condensed block independently
 of its units

---
 parallel_control/condensing_np.py | 9 +++++++--
 parallel_control/condensing_tf.py | 9 ++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/parallel_control/condensing_np.py b/parallel_control/condensing_np.py
index e62de13..b52e329 100644
--- a/parallel_control/condensing_np.py
+++ b/parallel_control/condensing_np.py
@@ -139,9 +139,14 @@ class LQTCondenser:
             tmp = np.zeros((rdim+udim)*Nc)
             tmp[0:(rdim*Nc)] = Hbar @ cbar
             # XUMstar is singular when the outputs of the block don't determine its
-            # initial state, any solution will do as the right hand side is in its range
-            rsstar, _, _, _ = linalg.lstsq(XUMstar, trans.T @ XUbar @ (rsbar - tmp),
+            # initial state, any solution will do as the right hand side is in its range.
+            # The rank is decided on a unit diagonal, the scales of states and controls can differ
+            scale = np.sqrt(np.diag(XUMstar))
+            scale = np.where(scale > 0, scale, 1.0)
+            rsstar, _, _, _ = linalg.lstsq(XUMstar / np.outer(scale, scale),
+                                           (trans.T @ XUbar @ (rsbar - tmp)) / scale,
                                            cond=10 * XUMstar.shape[0] * np.finfo(XUMstar.dtype).eps)
+            rsstar = rsstar / scale
 
             Xstar = XUMstar[0:xdim,0:xdim]
             Mstar = XUMstar[0:xdim,xdim:]
diff --git a/parallel_control/condensing_tf.py b/parallel_control/condensing_tf.py
index 84c4407..0864ece 100644
--- a/parallel_control/condensing_tf.py
+++ b/parallel_control/condensing_tf.py
@@ -122,11 +122,14 @@ def condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc):
     tmp = tf.concat([mv(Hbar, cbar), tf.zeros((Fs_blocks.shape[0], Lbar.shape[-1]), dtype=Fs_blocks.dtype)], 1)
     tmp = mv(trans, mv(XUbar, rsbar - tmp), transpose_a=True)
     # XUMstar is singular when the outputs of the block don't determine its initial
-    # state, any solution will do as the right hand side is in its range
-    w, V = tf.linalg.eigh(XUMstar)
+    # state, any solution will do as the right hand side is in its range.
+    # The rank is decided on a unit diagonal, the scales of states and controls can differ
+    scale = tf.sqrt(tf.linalg.diag_part(XUMstar))
+    scale = tf.where(scale > 0, scale, tf.ones_like(scale))
+    w, V = tf.linalg.eigh(XUMstar / (scale[:,:,None] * scale[:,None,:]))
     w_tol = 10 * XUMstar.shape[-1] * np.finfo(XUMstar.dtype.as_numpy_dtype).eps * w[:,-1:]
     w_inv = tf.where(w > w_tol, 1.0 / tf.where(w > w_tol, w, tf.ones_like(w)), tf.zeros_like(w))
-    rsstar = mv(V, w_inv * mv(V, tmp, transpose_a=True))
+    rsstar = mv(V, w_inv * mv(V, tmp / scale, transpose_a=True)) / scale
 
     rstar = rsstar[:,0:Fs_blocks.shape[-1]]
     sstar = rsstar[:,Fs_blocks.shape[-1]:]
-- 
2.43.0


From 6307f143d2f2c5982a299c909c100b5af6397075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 19/21] fix: discretize noise accurately on steps long against
 the system's decay

---
 parallel_control/disc.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parallel_control/disc.py b/parallel_control/disc.py
index 28bda46..b245717 100644
--- a/parallel_control/disc.py
+++ b/parallel_control/disc.py
@@ -38,10 +38,21 @@ def lti_disc(F, L, Qc=None, dt=1.0):
     Phi[ 0:n,  n: ] = LQL
     Phi[n:2*n, n: ] = -F.T
 
-    EPhi = linalg.expm(Phi * dt)
+    # The block -F' grows as fast as F decays and would drown the rest of the
+    # exponential on long steps, so compute Q on a short step and double it.
+    norm = np.abs(F).sum(axis=0).max() * abs(dt)
+    doublings = max(0, int(np.ceil(np.log2(norm)))) if norm > 1.0 else 0
+
+    EPhi = linalg.expm(Phi * (dt / 2**doublings))
     A = EPhi[0:n, 0:n]
     Q = EPhi[0:n, n:] @ A.T
 
+    for _ in range(doublings):
+        Q = A @ Q @ A.T + Q
+        A = A @ A
+
+    A = linalg.expm(F * dt)
+
     return A, Q
 
 def lti_disc_u(F, L, G=None, Qc=None, dt=1.0):
-- 
2.43.0


From bf206206bc022f6d98c61585555f3bf44a311d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 20/21] fix: exact Riccati propagation must not lose accuracy
 over long horizons

---
 parallel_control/clqt_np.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parallel_control/clqt_np.py b/parallel_control/clqt_np.py
index f5fa22c..bc9ec11 100644
--- a/parallel_control/clqt_np.py
+++ b/parallel_control/clqt_np.py
@@ -236,9 +236,8 @@ class CLQR:
             n = self.F.shape[0]
             H = np.block([[self.F, -LULT], [-self.X, -self.F.T]])
             Psi = linalg.expm(-dt*H)
-            CD = np.block([[np.eye(n)],[S]])
             for _ in reversed(range(steps)):
-                CD = Psi @ CD
+                CD = Psi @ np.block([[np.eye(n)],[S]])
                 S  = linalg.solve(CD[0:n,:], CD[n:,:].T, transposed=True)
                 S = 0.5 * (S + S.T)
                 Kx = ULT @ S
-- 
2.43.0


From 7f4bf4a655990d96970eb4c210320acba1e3d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 21/21] fix: decoder conversion must not reverse the caller's
 lists while it runs

---
 parallel_control/viterbi_np.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/parallel_control/viterbi_np.py b/parallel_control/viterbi_np.py
index 27563a3..5a5b7c2 100644
--- a/parallel_control/viterbi_np.py
+++ b/parallel_control/viterbi_np.py
@@ -171,13 +171,8 @@ class Viterbi_np:
             min_x_list: List of states.
             V_list: List of value functions.
         """
-        V_list.reverse()
-        V_list_vit = np.array(V_list[:])
-        V_list.reverse()
-
-        min_x_list.reverse()
-        v_map = np.array(min_x_list[:])
-        min_x_list.reverse()
+        V_list_vit = np.array(V_list[::-1])
+        v_map = np.array(min_x_list[::-1])
 
         return v_map, V_list_vit
 
-- 
2.43.0

