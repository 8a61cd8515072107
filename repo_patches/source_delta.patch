From 3905c5f40b54d6c26a5dfec6a297c1d49bc41c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 01/82] fix: fda and wda centre a copy of the samples, not the
 caller's array

---
 ot/dr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index 4914e6b..e0a4bd4 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -102,7 +102,7 @@ def fda(X, y, p=2, reg=1e-16):
     """
 
     mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
@@ -219,7 +219,7 @@ def wda(
         raise ValueError("Unknown Sinkhorn method '%s'." % sinkhorn_method)
 
     mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
-- 
2.43.0


From 0861d58b6575ca4feb535c6a50596c165d0d0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 02/82] fix: NorthWestMMGluing no longer empties the caller's
 weights (torch views)

---
 ot/lp/_barycenter_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index e37fbec..0cf82b7 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -911,7 +911,7 @@ def NorthWestMMGluing(pi_list, a=None, log=False, nx=None):
                 gamma_weights[jj] += v
             else:
                 gamma_weights[jj] = v
-            u -= v  # at i, we u-v mass left to assign
+            u = u - v  # at i, we u-v mass left to assign
             for k in range(K):  # update plan copies Pk
                 P_list[k][i, jj[k]] -= v  # Pk[i, j_k] has v less mass left
                 if P_list[k][i, jj[k]] == 0:
-- 
2.43.0


From ef5a295f28245133bb87fc3cd76ed6401282b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 03/82] fix: dmmot_monge_1dgrid_optimize works on a copy of the
 histograms

---
 ot/lp/dmmot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index f40a99b..f4b85d3 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -303,7 +303,7 @@ def dmmot_monge_1dgrid_optimize(
 
     # function body here
     nx = get_backend(A)
-    A = nx.to_numpy(A)
+    A = np.array(nx.to_numpy(A))  # copy, renormalised in place below
     n, d = A.shape  # n is dim, d is n_hists
 
     def dualIter(A, lr):
-- 
2.43.0


From d36b2573302c75b6c8ab98f330d94f7ba41eb64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 04/82] fix: emd_1d_dual_backprop accepts gradient-tracking
 inputs and leaves their grad alone

---
 ot/lp/solver_1d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 802621c..c4a76a4 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -527,15 +527,15 @@ def emd_1d_dual_backprop(
         v_weights = nx.repeat(v_weights[..., None], v_values.shape[-1], -1)
 
     if nx.__name__ == "torch":
-        u_weights_diff = nx.copy(u_weights)
-        v_weights_diff = nx.copy(v_weights)
+        u_weights_diff = nx.copy(nx.detach(u_weights))
+        v_weights_diff = nx.copy(nx.detach(v_weights))
 
         u_weights_diff.requires_grad_(True)
         v_weights_diff.requires_grad_(True)
 
         cost_output = wasserstein_1d(
-            u_values,
-            v_values,
+            nx.detach(u_values),
+            nx.detach(v_values),
             u_weights_diff,
             v_weights_diff,
             p=p,
-- 
2.43.0


From 1a92a8497371182466fe6e32ede5ad8390ebeaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 05/82] fix: automatic ground barycenter does not accumulate
 gradients in the measures

---
 ot/lp/_barycenter_solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index 0cf82b7..6aad22c 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -683,6 +683,7 @@ def free_support_barycenter_generic_costs(
 
             def ground_bary(y, x_init):
                 x = x_init.clone().detach().requires_grad_(True)
+                y = [y_k.detach() for y_k in y]
                 solver = Adam if ground_bary_solver == "Adam" else SGD
                 opt = solver([x], lr=ground_bary_lr)
                 loss_prev = None
-- 
2.43.0


From 20bc08033900b8cf877af53c8bedc555f965e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 06/82] fix: Gromov initialisation and partitioning do not
 reseed the global random streams

---
 ot/gromov/_quantized.py   | 18 +++++++++---------
 ot/gromov/_semirelaxed.py |  8 ++++----
 ot/gromov/_utils.py       |  6 ++----
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 861cbfd..3dc2bc5 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -340,8 +340,8 @@ def get_graph_partition(
 
     elif part_method == "random":
         # randomly partition the space
-        random.seed(random_state)
-        part = list_to_array(random.choices(np.arange(npart), k=C.shape[0]))
+        rng = random.Random(random_state)
+        part = list_to_array(rng.choices(np.arange(npart), k=C.shape[0]))
 
     elif part_method == "louvain":
         C = nx.to_numpy(C0)
@@ -424,10 +424,10 @@ def get_graph_representants(C, part, rep_method="pagerank", random_state=0, nx=N
         rep_indices = nx.arange(n_part_ids)
 
     elif rep_method == "random":
-        random.seed(random_state)
+        rng = random.Random(random_state)
         for id_, part_id in enumerate(part_ids):
             indices = nx.where(part == part_id)[0]
-            rep_indices.append(random.choice(indices))
+            rep_indices.append(rng.choice(indices))
 
     elif rep_method == "pagerank":
         C0, part0 = C, part
@@ -922,14 +922,14 @@ def get_partition_and_representants_samples(
         rep_indices = nx.arange(n)
 
     elif npart == 1:
-        random.seed(random_state)
+        rng = random.Random(random_state)
         part = nx.zeros(n)
-        rep_indices = [random.choice(nx.arange(n))]
+        rep_indices = [rng.choice(nx.arange(n))]
 
     elif method == "random":
         # randomly partition the space
-        random.seed(random_state)
-        part = list_to_array(random.choices(np.arange(npart), k=X.shape[0]))
+        rng = random.Random(random_state)
+        part = list_to_array(rng.choices(np.arange(npart), k=X.shape[0]))
         part = nx.from_numpy(part, type_as=X0)
 
         # randomly select representant in each partition
@@ -937,7 +937,7 @@ def get_partition_and_representants_samples(
         part_ids = nx.unique(part)
         for id_, part_id in enumerate(part_ids):
             indices = nx.where(part == part_id)[0]
-            rep_indices.append(random.choice(indices))
+            rep_indices.append(rng.choice(indices))
 
     elif method == "kmeans":
         X = nx.to_numpy(X0)
diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 02fafc8..671905c 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -1600,8 +1600,8 @@ def semirelaxed_gromov_barycenters(
             if G0 in ["product", "random_product"]:
                 # initial structure is constant so we add a small random noise
                 # to avoid getting stuck at init
-                np.random.seed(random_state)
-                noise = np.random.uniform(-0.01, 0.01, size=(N, N))
+                rng = np.random.RandomState(random_state)
+                noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
                 noise = nx.from_numpy(noise)
@@ -1929,8 +1929,8 @@ def semirelaxed_fgw_barycenters(
             if G0 in ["product", "random_product"]:
                 # initial structure is constant so we add a small random noise
                 # to avoid getting stuck at init
-                np.random.seed(random_state)
-                noise = np.random.uniform(-0.01, 0.01, size=(N, N))
+                rng = np.random.RandomState(random_state)
+                noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
                 noise = nx.from_numpy(noise)
diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 4ae23d4..017b191 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -605,15 +605,13 @@ def semirelaxed_init_plan(
         T = nx.outer(p, q)
 
     elif method == "random_product":
-        np.random.seed(random_state)
-        q = np.random.uniform(0, m, size=(m,))
+        q = np.random.RandomState(random_state).uniform(0, m, size=(m,))
         q = q / q.sum()
         q = nx.from_numpy(q, type_as=p)
         T = nx.outer(p, q)
 
     elif method == "random":
-        np.random.seed(random_state)
-        U = np.random.uniform(0, n * m, size=(n, m))
+        U = np.random.RandomState(random_state).uniform(0, n * m, size=(n, m))
         U = (p / U.sum(1))[:, None] * U
         T = nx.from_numpy(U, type_as=C1)
 
-- 
2.43.0


From 4630fc1b48beb13bb774e944824b96eef41f9483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 07/82] fix: seeded draws use a private generator instead of
 reseeding the shared one

---
 ot/backend.py       | 29 +++++++++++++++++++++++++++++
 ot/lowrank.py       | 15 +++++++--------
 ot/sliced/_utils.py |  8 ++------
 3 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 08ab22b..520fc1e 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -86,6 +86,7 @@ Performance
 #
 # License: MIT License
 
+import copy
 import os
 import time
 import warnings
@@ -832,6 +833,24 @@ class Backend:
         """
         raise NotImplementedError()
 
+    def seeded(self, seed=None):
+        r"""
+        Returns a backend whose random generator starts from the given seed.
+
+        The generator shared by all the users of the backend is left untouched,
+        so that seeded draws neither disturb nor are disturbed by other draws.
+        When `seed` is None, returns the backend itself.
+        """
+        if seed is None:
+            return self
+        nx = copy.copy(self)
+        nx._private_rng()
+        nx.seed(seed)
+        return nx
+
+    def _private_rng(self):
+        """Replaces the shared random generator (if any) with a new one"""
+
     def rand(self, *size, type_as=None):
         r"""
         Generate uniform random numbers.
@@ -1417,6 +1436,9 @@ class NumpyBackend(Backend):
         if seed is not None:
             self.rng_.seed(seed)
 
+    def _private_rng(self):
+        self.rng_ = np.random.RandomState()
+
     def rand(self, *size, type_as=None):
         return self.rng_.rand(*size)
 
@@ -2407,6 +2429,10 @@ class TorchBackend(Backend):
         else:
             raise ValueError("Non compatible seed : {}".format(seed))
 
+    def _private_rng(self):
+        self.rng_ = torch.Generator("cpu")
+        self.rng_cuda_ = torch.Generator(self.rng_cuda_.device)
+
     def rand(self, *size, type_as=None):
         if type_as is not None:
             generator = (
@@ -2888,6 +2914,9 @@ class CupyBackend(Backend):  # pragma: no cover
         if seed is not None:
             self.rng_.seed(seed)
 
+    def _private_rng(self):
+        self.rng_ = cp.random.RandomState()
+
     def rand(self, *size, type_as=None):
         if type_as is None:
             return self.rng_.rand(*size)
diff --git a/ot/lowrank.py b/ot/lowrank.py
index f4e3aa4..48aaaa7 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -73,18 +73,18 @@ def _init_lr_sinkhorn(X_s, X_t, a, b, rank, init, reg_init, random_state, nx=Non
     r = rank
 
     if init == "random":
-        nx.seed(seed=random_state)
+        rng = nx.seeded(random_state)
 
         # Init g
-        g = nx.abs(nx.randn(r, type_as=X_s)) + 1
+        g = nx.abs(rng.randn(r, type_as=X_s)) + 1
         g = g / nx.sum(g)
 
         # Init Q
-        Q = nx.abs(nx.randn(ns, r, type_as=X_s)) + 1
+        Q = nx.abs(rng.randn(ns, r, type_as=X_s)) + 1
         Q = (Q.T * (a / nx.sum(Q, axis=1))).T
 
         # Init R
-        R = nx.abs(nx.randn(nt, rank, type_as=X_s)) + 1
+        R = nx.abs(rng.randn(nt, rank, type_as=X_s)) + 1
         R = (R.T * (b / nx.sum(R, axis=1))).T
 
     if init == "deterministic":
@@ -554,8 +554,7 @@ def kernel_nystroem(X_s, X_t, anchors=50, sigma=1.0, random_state=None):
         Right factor of Nystroem
     """
     nx = get_backend(X_s, X_t)
-    if random_state is not None:
-        nx.seed(random_state)
+    rng = nx.seeded(random_state)
 
     n, m = X_s.shape[0], X_t.shape[0]
 
@@ -565,10 +564,10 @@ def kernel_nystroem(X_s, X_t, anchors=50, sigma=1.0, random_state=None):
     n_components_source = min(n, anchors // 2)
     n_components_target = min(m, anchors // 2)
     # draw n_components/2 points in each distribution
-    inds_source = nx.randperm(n)  # sample n_components_source uniformly
+    inds_source = rng.randperm(n)  # sample n_components_source uniformly
     basis_source = X_s[inds_source[:n_components_source]]
 
-    inds_target = nx.randperm(m)
+    inds_target = rng.randperm(m)
     basis_target = X_t[inds_target[:n_components_target]]
 
     basis = nx.concatenate((basis_source, basis_target))
diff --git a/ot/sliced/_utils.py b/ot/sliced/_utils.py
index fc280d5..37d8c2f 100644
--- a/ot/sliced/_utils.py
+++ b/ot/sliced/_utils.py
@@ -57,9 +57,7 @@ def get_random_projections(d, n_projections, seed=None, backend=None, type_as=No
     if isinstance(seed, np.random.RandomState) and str(nx) == "numpy":
         projections = seed.randn(d, n_projections)
     else:
-        if seed is not None:
-            nx.seed(seed)
-        projections = nx.randn(d, n_projections, type_as=type_as)
+        projections = nx.seeded(seed).randn(d, n_projections, type_as=type_as)
 
     projections = projections / nx.sqrt(nx.sum(projections**2, 0, keepdims=True))
     return projections
@@ -102,9 +100,7 @@ def get_projections_sphere(d, n_projections, seed=None, backend=None, type_as=No
     if isinstance(seed, np.random.RandomState) and str(nx) == "numpy":
         Z = seed.randn(n_projections, d, 2)
     else:
-        if seed is not None:
-            nx.seed(seed)
-        Z = nx.randn(n_projections, d, 2, type_as=type_as)
+        Z = nx.seeded(seed).randn(n_projections, d, 2, type_as=type_as)
 
     projections, _ = nx.qr(Z)
     return projections
-- 
2.43.0


From 99f4945c708b912471b8409b79f292b394046d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 08/82] fix: C++ exceptions of the exact solver reach Python
 instead of aborting the process

---
 ot/lp/emd_wrap.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/lp/emd_wrap.pyx b/ot/lp/emd_wrap.pyx
index a6d42bb..40109ee 100644
--- a/ot/lp/emd_wrap.pyx
+++ b/ot/lp/emd_wrap.pyx
@@ -20,10 +20,10 @@ import warnings
 
 
 cdef extern from "EMD.h":
-    int EMD_wrap(int n1,int n2, double *X, double *Y,double *D, double *G, double* alpha, double* beta, double *cost, uint64_t maxIter, double* alpha_init, double* beta_init) nogil
-    int EMD_wrap_omp(int n1,int n2, double *X, double *Y,double *D, double *G, double* alpha, double* beta, double *cost, uint64_t maxIter, int numThreads) nogil
-    int EMD_wrap_sparse(int n1, int n2, double *X, double *Y, uint64_t n_edges, uint64_t *edge_sources, uint64_t *edge_targets, double *edge_costs, uint64_t *flow_sources_out, uint64_t *flow_targets_out, double *flow_values_out, uint64_t *n_flows_out, uint64_t max_flows_out, double *alpha, double *beta, double *cost, uint64_t maxIter, double* alpha_init, double* beta_init) nogil
-    int EMD_wrap_lazy(int n1, int n2, double *X, double *Y, double *coords_a, double *coords_b, int dim, int metric, uint64_t *flow_sources_out, uint64_t *flow_targets_out, double *flow_values_out, uint64_t *n_flows_out, uint64_t max_flows_out, double* alpha, double* beta, double *cost, uint64_t maxIter, double* alpha_init, double* beta_init) nogil
+    int EMD_wrap(int n1,int n2, double *X, double *Y,double *D, double *G, double* alpha, double* beta, double *cost, uint64_t maxIter, double* alpha_init, double* beta_init) except + nogil
+    int EMD_wrap_omp(int n1,int n2, double *X, double *Y,double *D, double *G, double* alpha, double* beta, double *cost, uint64_t maxIter, int numThreads) except + nogil
+    int EMD_wrap_sparse(int n1, int n2, double *X, double *Y, uint64_t n_edges, uint64_t *edge_sources, uint64_t *edge_targets, double *edge_costs, uint64_t *flow_sources_out, uint64_t *flow_targets_out, double *flow_values_out, uint64_t *n_flows_out, uint64_t max_flows_out, double *alpha, double *beta, double *cost, uint64_t maxIter, double* alpha_init, double* beta_init) except + nogil
+    int EMD_wrap_lazy(int n1, int n2, double *X, double *Y, double *coords_a, double *coords_b, int dim, int metric, uint64_t *flow_sources_out, uint64_t *flow_targets_out, double *flow_values_out, uint64_t *n_flows_out, uint64_t max_flows_out, double* alpha, double* beta, double *cost, uint64_t maxIter, double* alpha_init, double* beta_init) except + nogil
     cdef enum ProblemType: INFEASIBLE, OPTIMAL, UNBOUNDED, MAX_ITER_REACHED
 
 
-- 
2.43.0


From c5128176d2456f772d445662b2c546ab015067e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 09/82] fix: fitting a transport no longer rescales its
 limit_max parameter

---
 ot/da.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 527999c..3cf02ad 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -595,8 +595,9 @@ class BaseTransport(BaseEstimator):
             )
 
             if (ys is not None) and (yt is not None):
-                if self.limit_max != np.inf:
-                    self.limit_max = self.limit_max * nx.max(self.cost_)
+                limit_max = self.limit_max
+                if limit_max != np.inf:
+                    limit_max = limit_max * nx.max(self.cost_)
 
                 # missing_labels is a (ns, nt) matrix of {0, 1} such that
                 # the cells (i, j) has 0 iff either ys[i] or yt[j] is masked
@@ -614,7 +615,7 @@ class BaseTransport(BaseEstimator):
                 # (as we explicitly cover potential NANs later)
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore", category=RuntimeWarning)
-                    cost_correction = label_match * missing_labels * self.limit_max
+                    cost_correction = label_match * missing_labels * limit_max
                 # this operation is necessary because 0 * Inf = NAN
                 # thus is irrelevant when limit_max is finite
                 cost_correction = nx.nan_to_num(cost_correction, -np.inf)
-- 
2.43.0


From 719d4038929c95e1278cdbab859929e035183246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 10/82] fix: partial_cg does not apply the outer iteration
 limit to the inner exact solver

---
 ot/optim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/optim.py b/ot/optim.py
index 35f819c..6a37602 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -683,6 +683,7 @@ def partial_cg(
     warn=True,
     verbose=False,
     log=False,
+    numItermaxEmd=100000,
     **kwargs,
 ):
     r"""
@@ -742,6 +743,8 @@ def partial_cg(
         Print information along iterations
     log : bool, optional
         record log if True
+    numItermaxEmd : int, optional
+        Max number of iterations for emd
     **kwargs : dict
              Parameters for linesearch
 
@@ -772,7 +775,7 @@ def partial_cg(
         Mi_extended[-nb_dummies:, -nb_dummies:] = np.max(M) * 1e2
 
         G_extended, log_ = emd(
-            a_extended, b_extended, Mi_extended, numItermax, log=True
+            a_extended, b_extended, Mi_extended, numItermaxEmd, log=True
         )
         Gc = G_extended[:n, :m]
 
-- 
2.43.0


From 42aa69c4ab4c6ece4e8ad76368fbd8aec6a61642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 11/82] fix: partial Gromov solvers honour warn also without
 log

---
 ot/gromov/_partial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index afb76ef..3de83b8 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -300,6 +300,7 @@ def partial_gromov_wasserstein(
                 numItermax=numItermax,
                 stopThr=tol,
                 stopThr2=0.0,
+                warn=warn,
                 **kwargs,
             ),
             type_as=C10,
@@ -778,6 +779,7 @@ def partial_fused_gromov_wasserstein(
                 numItermax=numItermax,
                 stopThr=tol,
                 stopThr2=0.0,
+                warn=warn,
                 **kwargs,
             ),
             type_as=C10,
-- 
2.43.0


From d564160d2a634d628863fdd4dd62d1dfd227abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 12/82] fix: projection_sparse_simplex no longer prints

---
 ot/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index eb90cb2..1fd5acb 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -201,7 +201,6 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
 
         row_indices = nx.arange(V.shape[0])
         row_indices = row_indices.reshape(-1, 1)
-        print(row_indices.shape)
         # Extract the top max_nz values for each row
         # and then project to simplex.
         U = V[row_indices, max_nz_indices]
-- 
2.43.0


From b7f9ca6db2409abc7984aa63555dc59c4fe5df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 13/82] fix: get_params leaves the caller's warning filters
 alone

---
 ot/utils.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index 1fd5acb..3789583 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1054,15 +1054,12 @@ class BaseEstimator(object):
             # catch deprecated param values.
             # This is set in utils/__init__.py but it gets overwritten
             # when running under python3 somehow.
-            warnings.simplefilter("always", DeprecationWarning)
-            try:
-                with warnings.catch_warnings(record=True) as w:
-                    value = getattr(self, key, None)
-                if len(w) and isinstance(w[0].category, DeprecationWarning):
-                    # if the parameter is deprecated, don't show it
-                    continue
-            finally:
-                warnings.filters.pop(0)
+            with warnings.catch_warnings(record=True) as w:
+                warnings.simplefilter("always", DeprecationWarning)
+                value = getattr(self, key, None)
+            if len(w) and isinstance(w[0].category, DeprecationWarning):
+                # if the parameter is deprecated, don't show it
+                continue
 
             # XXX: should we rather test if instance of estimator?
             if deep and hasattr(value, "get_params"):
-- 
2.43.0


From 5b9c25a8061942e990acec6b61d046b20d21dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 14/82] fix: probing a callable does not swallow keyboard
 interrupts

---
 ot/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index 3789583..fc5ed59 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1855,7 +1855,7 @@ def fun_to_numpy(fun, arr, nx, warn=True):
     try:
         fun(arr)
         return fun
-    except BaseException:
+    except Exception:
         if warn:
             warnings.warn(
                 "The callable function should be able to handle numpy arrays, a compatible function is created and comes with overhead"
-- 
2.43.0


From 852a0ae07aeea6bd866169674a8d41ae09e1e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 15/82] fix: dmmot ignores only the expected out-of-range index

---
 ot/lp/dmmot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index f4b85d3..251fa24 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -181,7 +181,7 @@ def dmmot_monge_1dgrid_loss(A, verbose=False, log=False):
     for _, i in enumerate(idx):
         try:
             dual[_][i:] = dual[_][i]
-        except Exception:
+        except IndexError:
             pass
 
     dualobj = sum([np.dot(A[:, i], arr) for i, arr in enumerate(dual)])
-- 
2.43.0


From c8efbc68c3bba4fc34b1c1f096674dbed5833232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 16/82] fix: dmmot_monge_1dgrid_optimize prints only when
 verbose

---
 ot/lp/dmmot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index 251fa24..311910b 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -328,14 +328,15 @@ def dmmot_monge_1dgrid_optimize(
     funcval, _, grad, log_dict = dualIter(A, lr)
     gn = np.linalg.norm(grad)
 
-    print(f"Initial:\t\tObj:\t{funcval:.4f}\tGradNorm:\t{gn:.4f}")
+    if verbose:
+        print(f"Initial:\t\tObj:\t{funcval:.4f}\tGradNorm:\t{gn:.4f}")
 
     for i in range(niters):
         A = renormalize(A)
         funcval, A, grad, log_dict = dualIter(A, lr)
         gn = np.linalg.norm(grad)
 
-        if i % print_rate == 0:
+        if verbose and i % print_rate == 0:
             print(f"Iter {i:2.0f}:\tObj:\t{funcval:.4f}\tGradNorm:\t{gn:.4f}")
 
         lr *= lr_decay
-- 
2.43.0


From 67f3988b94178167f09f929c7d221a2d315602ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 17/82] fix: sinkhorn_log with several histograms honours
 warn=False

---
 ot/bregman/_sinkhorn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index cf5efad..fdfaeb7 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -831,6 +831,7 @@ def sinkhorn_log(
                 stopThr=stopThr,
                 verbose=verbose,
                 log=log,
+                warn=warn,
                 warmstart=warmstart[k],
                 **kwargs,
             )
-- 
2.43.0


From 39158c320bcac2124635938dde41163cdf0d48b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 18/82] fix: sinkhorn_log accepts a single histogram given as a
 column

---
 ot/bregman/_sinkhorn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index fdfaeb7..3a3c6b3 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -813,7 +813,7 @@ def sinkhorn_log(
         n_hists = 0
 
     # in case of multiple histograms
-    if n_hists > 1 and warmstart is None:
+    if n_hists and warmstart is None:
         warmstart = [None] * n_hists
 
     if n_hists:  # we do not want to use tensors sor we do a loop
-- 
2.43.0


From 6958fbc1ac13ce71bd7441609f5554b12b8c24a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 19/82] fix: sinkhorn_stabilized keeps plan and potentials
 consistent when scalings are absorbed

---
 ot/bregman/_sinkhorn.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 3a3c6b3..58c939f 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1282,18 +1282,14 @@ def sinkhorn_stabilized(
         # remove numerical problems and store them in K
         if nx.max(nx.abs(u)) > tau or nx.max(nx.abs(v)) > tau:
             if n_hists:
-                alpha, beta = (
-                    alpha + reg * nx.max(nx.log(u), 1),
-                    beta + reg * nx.max(nx.log(v)),
-                )
+                u_max, v_max = nx.max(u, 1), nx.max(v, 1)
+                alpha = alpha + reg * nx.log(u_max)
+                beta = beta + reg * nx.log(v_max)
+                u, v = u / u_max[:, None], v / v_max[:, None]
             else:
                 alpha, beta = alpha + reg * nx.log(u), beta + reg * nx.log(v)
-                if n_hists:
-                    u = nx.ones((dim_a, n_hists), type_as=M) / dim_a
-                    v = nx.ones((dim_b, n_hists), type_as=M) / dim_b
-                else:
-                    u = nx.ones(dim_a, type_as=M) / dim_a
-                    v = nx.ones(dim_b, type_as=M) / dim_b
+                u = nx.ones(dim_a, type_as=M)
+                v = nx.ones(dim_b, type_as=M)
             K = get_K(alpha, beta)
 
         if ii % print_period == 0:
-- 
2.43.0


From 04c54dfd0e0dd8bc5b82058f3ba4d34f0a154b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 20/82] fix: sinkhorn_stabilized rolls back numerical errors
 before absorbing them

---
 ot/bregman/_sinkhorn.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 58c939f..7534b8b 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1279,6 +1279,19 @@ def sinkhorn_stabilized(
         v = b / (nx.dot(K.T, u))
         u = a / (nx.dot(K, v))
 
+        if (
+            nx.any(nx.isnan(u))
+            or nx.any(nx.isnan(v))
+            or nx.any(nx.isinf(u))
+            or nx.any(nx.isinf(v))
+        ):
+            # we have reached the machine precision
+            # come back to previous solution and quit loop
+            warnings.warn("Numerical errors at iteration %d" % ii)
+            u = uprev
+            v = vprev
+            break
+
         # remove numerical problems and store them in K
         if nx.max(nx.abs(u)) > tau or nx.max(nx.abs(v)) > tau:
             if n_hists:
@@ -1314,14 +1327,6 @@ def sinkhorn_stabilized(
 
         if err <= stopThr:
             break
-
-        if nx.any(nx.isnan(u)) or nx.any(nx.isnan(v)):
-            # we have reached the machine precision
-            # come back to previous solution and quit loop
-            warnings.warn("Numerical errors at iteration %d" % ii)
-            u = uprev
-            v = vprev
-            break
     else:
         if warn:
             warnings.warn(
-- 
2.43.0


From 321d985095b7c368ea565bc4a3144746feefdf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 21/82] fix: multi-threaded exact solver accepts rounding
 errors like the sequential one

---
 ot/lp/network_simplex_simple_omp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index a0c5feb..cca83e7 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -42,7 +42,7 @@
 #undef _EPSILON
 #undef MAX_DEBUG_ITER
 #define EPSILON std::numeric_limits<Cost>::epsilon()
-#define _EPSILON 1e-14
+#define _EPSILON 1e-8
 #define MAX_DEBUG_ITER 100000
 
 /// \ingroup min_cost_flow_algs
-- 
2.43.0


From a4a552c665c65d535884729c864ada9d87d0dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 22/82] fix: initialise the entering arc of the exact solver
 (sparse problems without usable arc read out of bounds)

---
 ot/lp/network_simplex_simple.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/lp/network_simplex_simple.h b/ot/lp/network_simplex_simple.h
index c3b3435..1cf8090 100644
--- a/ot/lp/network_simplex_simple.h
+++ b/ot/lp/network_simplex_simple.h
@@ -1810,6 +1810,10 @@ namespace lemon {
 
 			_sum_supply = 0;
 
+            // The pivot rule reads in_arc even when no arc has been selected
+            // (e.g. a sparse problem without any usable arc)
+            in_arc = 0;
+
             // Initialize artifical cost
             Cost ART_COST;
             if (std::numeric_limits<Cost>::is_exact) {
-- 
2.43.0


From b831d1d3f7387e062095f9d801a17e5d0d0759e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 23/82] fix: projection_robust_wasserstein returns its last
 finite plan when its scalings break down

---
 ot/dr.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ot/dr.py b/ot/dr.py
index e0a4bd4..fd8eef1 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -16,6 +16,8 @@ Dimension reduction with OT
 #
 # License: MIT License
 
+import warnings
+
 from scipy import linalg
 
 try:
@@ -382,6 +384,7 @@ def projection_robust_wasserstein(
 
     err = 1
     iter = 0
+    pi = a.reshape((-1, 1)) * np.asarray(b).reshape((1, -1))
 
     while err > stopThr and iter < maxiter:
         # Projected cost matrix
@@ -401,6 +404,11 @@ def projection_robust_wasserstein(
         AtransposeU = np.dot(A.T, u)
         v = np.divide(b, AtransposeU)
         u = 1.0 / np.dot(Ap, v)
+        if not (np.all(np.isfinite(u)) and np.all(np.isfinite(v))):
+            # we have reached the machine precision
+            # come back to previous solution and quit loop
+            warnings.warn("Numerical errors at iteration %d" % iter)
+            break
         pi = u.reshape((-1, 1)) * A * v.reshape((1, -1))
 
         V = Vpi(X, Y, a, b, pi)
-- 
2.43.0


From 2b2f500987eadad5cb7053a5a94b98cca374dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:12 +0000
Subject: [PATCH 24/82] fix: sinkhorn_epsilon_scaling does not warn about its
 truncated inner solves

---
 ot/bregman/_sinkhorn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 7534b8b..b4a288f 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1528,6 +1528,7 @@ def sinkhorn_epsilon_scaling(
             print_period=20,
             tau=tau,
             log=True,
+            warn=False,
         )
 
         alpha = logi["alpha"]
-- 
2.43.0


From 76df57c2469e7a5ff92a23845d64e132b8f79839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:12 +0000
Subject: [PATCH 25/82] fix: empirical_sinkhorn forwards warn to the dense
 solver

---
 ot/bregman/_empirical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/bregman/_empirical.py b/ot/bregman/_empirical.py
index 9eb7be6..762356c 100644
--- a/ot/bregman/_empirical.py
+++ b/ot/bregman/_empirical.py
@@ -282,6 +282,7 @@ def empirical_sinkhorn(
                 stopThr=stopThr,
                 verbose=verbose,
                 log=True,
+                warn=warn,
                 warmstart=warmstart,
                 **kwargs,
             )
@@ -296,6 +297,7 @@ def empirical_sinkhorn(
                 stopThr=stopThr,
                 verbose=verbose,
                 log=False,
+                warn=warn,
                 warmstart=warmstart,
                 **kwargs,
             )
-- 
2.43.0


From 3dd681790ccd48372754a8e86fb57af8cd95adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:12 +0000
Subject: [PATCH 26/82] fix: binary_search_circle terminates on NaN data

---
 ot/lp/solver_circle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index af118d1..7d5640a 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -384,7 +384,8 @@ def binary_search_circle(
         cpt += 1
 
         dCp, dCm = derivative_cost_on_circle(tc, u_values, v_values, u_cdf, v_cdf, p)
-        done = ((dCp * dCm) <= 0) * 1
+        # also stop on NaN, which no bisection step can resolve
+        done = 1 - ((dCp * dCm) > 0) * 1
 
         mask = ((tp - tm) < eps / L) * (1 - done)
 
-- 
2.43.0


From 9e95abd7cac1c7fa84a076e0a28978b855b738fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:12 +0000
Subject: [PATCH 27/82] fix: low-rank solvers do not warn when their last
 iteration converged

---
 ot/gromov/_lowrank.py | 2 +-
 ot/lowrank.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_lowrank.py b/ot/gromov/_lowrank.py
index b7f5c49..6c6dd22 100644
--- a/ot/gromov/_lowrank.py
+++ b/ot/gromov/_lowrank.py
@@ -297,7 +297,7 @@ def lowrank_gromov_wasserstein_samples(
             break
 
     else:
-        if warn:
+        if warn and err > stopThr:
             warnings.warn(
                 "Low Rank GW did not converge. You might want to "
                 "increase the number of iterations `numItermax` "
diff --git a/ot/lowrank.py b/ot/lowrank.py
index 48aaaa7..b0701fd 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -306,7 +306,7 @@ def _LR_Dysktra(eps1, eps2, eps3, p1, p2, alpha, stopThr, numItermax, warn, nx=N
             break
 
     else:
-        if warn:
+        if warn and err > stopThr:
             warnings.warn(
                 "Dykstra did not converge. You might want to "
                 "increase the number of iterations `numItermax` "
-- 
2.43.0


From be9b33aaaf9f31522cb133f7574ce8ca2289df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:34 +0000
Subject: [PATCH 28/82] fix: sinkhorn_epsilon_scaling does not warn after its
 minimal number of iterations if it converged

---
 ot/bregman/_sinkhorn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index b4a288f..a988d31 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1553,7 +1553,7 @@ def sinkhorn_epsilon_scaling(
         if err <= stopThr and ii > numItermin:
             break
     else:
-        if warn:
+        if warn and not err <= stopThr:
             warnings.warn(
                 "Sinkhorn did not converge. You might want to "
                 "increase the number of iterations `numItermax` "
-- 
2.43.0


From e150f3d4cbc65c939d0c169847a2e96df6bcf34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:55 +0000
Subject: [PATCH 29/82] fix: deprecated data generators use the seed and
 parameters they are given

---
 ot/datasets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/datasets.py b/ot/datasets.py
index 6e3be51..a5bdf4b 100644
--- a/ot/datasets.py
+++ b/ot/datasets.py
@@ -80,7 +80,7 @@ def make_2D_samples_gauss(n, m, sigma, random_state=None):
 @deprecated()
 def get_2D_samples_gauss(n, m, sigma, random_state=None):
     """Deprecated see  make_2D_samples_gauss"""
-    return make_2D_samples_gauss(n, m, sigma, random_state=None)
+    return make_2D_samples_gauss(n, m, sigma, random_state=random_state)
 
 
 def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **kwargs):
@@ -179,4 +179,6 @@ def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **k
 @deprecated()
 def get_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs):
     """Deprecated see  make_data_classif"""
-    return make_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs)
+    return make_data_classif(
+        dataset, n, nz=nz, theta=theta, random_state=random_state, **kwargs
+    )
-- 
2.43.0


From 5d199214fe945d0b18c762d5339a4cd6f33baea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 30/82] fix: unbalanced solvers accept a warm start with
 several histograms

---
 ot/unbalanced/_sinkhorn.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index d338e16..bf76e99 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -725,12 +725,13 @@ def sinkhorn_knopp_unbalanced(
         if n_hists:
             u = nx.ones((dim_a, 1), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
     else:
         u, v = nx.exp(warmstart[0]), nx.exp(warmstart[1])
+    if n_hists:
+        a = a.reshape(dim_a, 1)
 
     if reg_type.lower() == "entropy":
         warnings.warn(
@@ -987,12 +988,13 @@ def sinkhorn_stabilized_unbalanced(
         if n_hists:
             u = nx.ones((dim_a, n_hists), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
     else:
         u, v = nx.exp(warmstart[0]), nx.exp(warmstart[1])
+    if n_hists:
+        a = a.reshape(dim_a, 1)
 
     if reg_type == "entropy":
         warnings.warn(
@@ -1258,12 +1260,13 @@ def sinkhorn_unbalanced_translation_invariant(
         if n_hists:
             u = nx.ones((dim_a, 1), type_as=M)
             v = nx.ones((dim_b, n_hists), type_as=M)
-            a = a.reshape(dim_a, 1)
         else:
             u = nx.ones(dim_a, type_as=M)
             v = nx.ones(dim_b, type_as=M)
     else:
         u, v = nx.exp(warmstart[0]), nx.exp(warmstart[1])
+    if n_hists:
+        a = a.reshape(dim_a, 1)
 
     u_, v_ = u, v
 
-- 
2.43.0


From 0c64ffe18973af315f8c808742cf7eaaf46834d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 31/82] fix: sinkhorn_stabilized_unbalanced keeps plan and
 potentials consistent when scalings are absorbed

---
 ot/unbalanced/_sinkhorn.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index bf76e99..2c8e870 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1037,13 +1037,14 @@ def sinkhorn_stabilized_unbalanced(
         if nx.any(u > tau) or nx.any(v > tau):
             absorbing = True
             if n_hists:
-                alpha = alpha + reg * nx.log(nx.max(u, 1))
-                beta = beta + reg * nx.log(nx.max(v, 1))
+                u_max, v_max = nx.max(u, 1), nx.max(v, 1)
+                u, v = u / u_max[:, None], v / v_max[:, None]
             else:
-                alpha = alpha + reg * nx.log(nx.max(u))
-                beta = beta + reg * nx.log(nx.max(v))
+                u_max, v_max = nx.max(u), nx.max(v)
+                u, v = u / u_max, v / v_max
+            alpha = alpha + reg * nx.log(u_max)
+            beta = beta + reg * nx.log(v_max)
             K = nx.exp((alpha[:, None] + beta[None, :] - M0) / reg)
-            v = nx.ones(v.shape, type_as=v)
         Kv = nx.dot(K, v)
 
         if (
-- 
2.43.0


From 7e7d01db3f5f1cfda076ad8e92f9fa4befc10185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 32/82] fix: stabilized barycenters are not changed by
 absorbing the scalings

---
 ot/bregman/_barycenter.py  | 18 ++++++++++--------
 ot/unbalanced/_sinkhorn.py | 11 ++++++-----
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 89732f9..1a8b1b6 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -574,16 +574,18 @@ def barycenter_stabilized(
         Kv = nx.dot(K, v)
         u = A / Kv
         Ktu = nx.dot(K.T, u)
-        q = geometricBar(weights, Ktu)
-        Q = q[:, None]
-        v = Q / Ktu
+        bar = geometricBar(weights, Ktu)
+        # K already contains the absorbed potential beta
+        q = bar * nx.exp(-beta / reg)
+        v = q[:, None] / Ktu
         absorbing = False
         if nx.any(u > tau) or nx.any(v > tau):
             absorbing = True
-            alpha += reg * nx.log(nx.max(u, 1))
-            beta += reg * nx.log(nx.max(v, 1))
+            u_max, v_max = nx.max(u, 1), nx.max(v, 1)
+            u, v = u / u_max[:, None], v / v_max[:, None]
+            alpha = alpha + reg * nx.log(u_max)
+            beta = beta + reg * nx.log(v_max)
             K = nx.exp((alpha[:, None] + beta[None, :] - M) / reg)
-            v = nx.ones(tuple(v.shape), type_as=v)
         Kv = nx.dot(K, v)
         if (
             nx.any(Ktu == 0.0)
@@ -619,8 +621,8 @@ def barycenter_stabilized(
             )
     if log:
         log["niter"] = ii
-        log["logu"] = nx.log(u + 1e-16)
-        log["logv"] = nx.log(v + 1e-16)
+        log["logu"] = alpha[:, None] / reg + nx.log(u + 1e-16)
+        log["logv"] = beta[:, None] / reg + nx.log(v + 1e-16)
         return q, log
     else:
         return q
diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 2c8e870..296cf8d 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1522,10 +1522,11 @@ def barycenter_unbalanced_stabilized(
         absorbing = False
         if nx.any(u > tau) or nx.any(v > tau):
             absorbing = True
-            alpha = alpha + reg * nx.log(nx.max(u, 1))
-            beta = beta + reg * nx.log(nx.max(v, 1))
+            u_max, v_max = nx.max(u, 1), nx.max(v, 1)
+            u, v = u / u_max[:, None], v / v_max[:, None]
+            alpha = alpha + reg * nx.log(u_max)
+            beta = beta + reg * nx.log(v_max)
             K = nx.exp((alpha[:, None] + beta[None, :] - M) / reg)
-            v = nx.ones(v.shape, type_as=v)
         Kv = nx.dot(K, v)
         if (
             nx.any(Ktu == 0.0)
@@ -1562,8 +1563,8 @@ def barycenter_unbalanced_stabilized(
         )
     if log:
         log["niter"] = i
-        log["logu"] = nx.log(u + 1e-300)
-        log["logv"] = nx.log(v + 1e-300)
+        log["logu"] = alpha[:, None] / reg + nx.log(u + 1e-300)
+        log["logv"] = beta[:, None] / reg + nx.log(v + 1e-300)
         return q, log
     else:
         return q
-- 
2.43.0


From a5e702ef94c21d2c4dcb4382213093881b6d2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 33/82] fix: barycenter_sinkhorn starts from scalings
 compatible with the weights

---
 ot/bregman/_barycenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 1a8b1b6..0daf002 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -226,7 +226,7 @@ def barycenter_sinkhorn(
 
     UKv = nx.dot(K, (A.T / nx.sum(K, axis=0)).T)
 
-    u = (geometricMean(UKv) / UKv.T).T
+    u = (geometricBar(weights, UKv) / UKv.T).T
 
     for ii in range(numItermax):
         UKv = u * nx.dot(K.T, A / nx.dot(K, u))
-- 
2.43.0


From 29ce6a6a3624d1a7b64a5149731f50cce711803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 34/82] fix: sinkhorn_log with several histograms accepts the
 potentials it logs as warm start

---
 ot/bregman/_sinkhorn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index a988d31..200441d 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -815,6 +815,9 @@ def sinkhorn_log(
     # in case of multiple histograms
     if n_hists and warmstart is None:
         warmstart = [None] * n_hists
+    elif n_hists and len(getattr(warmstart[0], "shape", ())) == 2:
+        # potentials of all the histograms, as returned in the log
+        warmstart = [(warmstart[0][:, k], warmstart[1][:, k]) for k in range(n_hists)]
 
     if n_hists:  # we do not want to use tensors sor we do a loop
         lst_loss = []
-- 
2.43.0


From 74d669dd5413f1ed98c7bb718676a51eed18388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 35/82] fix: solve_sample uses the weights and the initial
 support with the factored method

---
 ot/solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 88cf5c7..5e3e12d 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1846,8 +1846,11 @@ def solve_sample(
             Q, R, X, log = factored_optimal_transport(
                 X_a,
                 X_b,
+                a=a,
+                b=b,
                 reg=reg,
                 r=rank,
+                X0=X_init,
                 log=True,
                 stopThr=tol,
                 numItermax=max_iter,
-- 
2.43.0


From d0986c3d60008779784dd8ef3a8b0eed71577dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 36/82] fix: solve and solve_sample start Sinkhorn from the
 given potentials

---
 ot/solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 5e3e12d..f559bbf 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -455,6 +455,7 @@ def solve(
                     stopThr=tol,
                     log=True,
                     verbose=verbose,
+                    warmstart=potentials_init,
                 )
 
                 potentials = (log["log_u"], log["log_v"])
@@ -1919,6 +1920,7 @@ def solve_sample(
                 stopThr=tol,
                 random_state=random_state,
                 log=True,
+                warmstart=potentials_init,
             )
 
             lazy_plan = log["lazy_plan"]
@@ -1999,6 +2001,7 @@ def solve_sample(
                     batchSize=batch_size,
                     verbose=verbose,
                     log=True,
+                    warmstart=potentials_init,
                 )
                 # compute potentials
                 potentials = (log["u"], log["v"])
-- 
2.43.0


From b9118689fc543e2593c36857b19a03c46d79d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 37/82] fix: UCOOT cost measures the regularization against the
 reference weights

---
 ot/gromov/_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 017b191..7195fea 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -1263,10 +1263,10 @@ def fused_unbalanced_across_spaces_cost(
         if eps_samp != 0:
             div_samp = div_to_product(
                 pi_samp,
-                pi1_samp,
-                pi2_samp,
                 px_samp,
                 py_samp,
+                pi1_samp,
+                pi2_samp,
                 divergence,
                 mass=True,
                 nx=nx,
@@ -1275,10 +1275,10 @@ def fused_unbalanced_across_spaces_cost(
         if eps_feat != 0:
             div_feat = div_to_product(
                 pi_feat,
-                pi1_feat,
-                pi2_feat,
                 px_feat,
                 py_feat,
+                pi1_feat,
+                pi2_feat,
                 divergence,
                 mass=True,
                 nx=nx,
-- 
2.43.0


From cea6b3ab69c7d639dab7561866343ca02ee6bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 38/82] fix: UCOOT regularizes the sample coupling with its own
 parameter

---
 ot/gromov/_unbalanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index 6971b6a..498234c 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -388,7 +388,7 @@ def fused_unbalanced_across_spaces_divergence(
 
         if divergence == "kl":
             new_rho = (rho_x * mass, rho_y * mass)
-            new_eps = mass * eps_feat if reg_type == "joint" else eps_feat
+            new_eps = mass * eps_samp if reg_type == "joint" else eps_samp
             new_wx, new_wy, new_wxy = wx_samp, wy_samp, wxy_samp
         else:  # divergence == "l2"
             new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_samp)
-- 
2.43.0


From d83d74ec32387f7c09e4f38cb77c59af6bf855d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 39/82] fix: UCOOT accepts initial duals for one of the
 couplings only

---
 ot/gromov/_unbalanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index 498234c..a9043c5 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -244,7 +244,7 @@ def fused_unbalanced_across_spaces_divergence(
 
     for tuple in [duals_samp, duals_feat]:
         if tuple is not None:
-            d1, d2 = duals_feat
+            d1, d2 = tuple
             if d1 is not None:
                 arr.append(list_to_array(d1))
             if d2 is not None:
-- 
2.43.0


From 76226b6f2d52cd3a34afb684bcd11e8598fa857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 40/82] fix: partial Gromov-Wasserstein accepts its own plan as
 initial plan

---
 ot/gromov/_partial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index 3de83b8..31dd4ca 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -200,8 +200,8 @@ def partial_gromov_wasserstein(
     else:
         G0 = nx.to_numpy(G0_)
         # Check marginals of G0
-        assert np.all(G0.sum(1) <= p)
-        assert np.all(G0.sum(0) <= q)
+        assert np.all(G0.sum(1) <= p + 1e-8)
+        assert np.all(G0.sum(0) <= q + 1e-8)
 
     q_extended = np.append(q, [(np.sum(p) - m) / nb_dummies] * nb_dummies)
     p_extended = np.append(p, [(np.sum(q) - m) / nb_dummies] * nb_dummies)
@@ -671,8 +671,8 @@ def partial_fused_gromov_wasserstein(
     else:
         G0 = nx.to_numpy(G0_)
         # Check marginals of G0
-        assert np.all(G0.sum(1) <= p)
-        assert np.all(G0.sum(0) <= q)
+        assert np.all(G0.sum(1) <= p + 1e-8)
+        assert np.all(G0.sum(0) <= q + 1e-8)
 
     q_extended = np.append(q, [(np.sum(p) - m) / nb_dummies] * nb_dummies)
     p_extended = np.append(p, [(np.sum(q) - m) / nb_dummies] * nb_dummies)
-- 
2.43.0


From fd0e5f19e4f77d17b3239b6d8fcd5df06b63d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 41/82] fix: generalized_free_support_barycenter starts from
 the given support

---
 ot/lp/_barycenter_solvers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index 6aad22c..b3d6603 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -387,14 +387,17 @@ def generalized_free_support_barycenter(
     )  # if eps nonzero: will force the invertibility of A
     for P_i, lambda_i in zip(P_list, weights):
         A = A + lambda_i * P_i.T @ P_i
-    B = nx.inv(nx.sqrtm(A))
+    sqrt_A = nx.sqrtm(A)
+    B = nx.inv(sqrt_A)
 
     Z_list = [
         x @ Pi @ B.T for (x, Pi) in zip(X_list, P_list)
     ]  # change of variables -> (WB) problem on Z
 
     if Y_init is None:
-        Y_init = nx.randn(n_samples_bary, d, type_as=X_list[0])
+        Z_init = nx.randn(n_samples_bary, d, type_as=X_list[0])
+    else:
+        Z_init = Y_init @ sqrt_A.T  # change of variables
 
     if b is None:
         b = nx.ones(n_samples_bary, type_as=X_list[0]) / n_samples_bary  # not optimized
@@ -402,7 +405,7 @@ def generalized_free_support_barycenter(
     out = free_support_barycenter(
         Z_list,
         a_list,
-        Y_init,
+        Z_init,
         b,
         numItermax=numItermax,
         stopThr=stopThr,
-- 
2.43.0


From 1f1046ceb007a3fd6a55732c598fc3cfb3c34d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 42/82] fix: generalized_free_support_barycenter uses the
 weights it is given

---
 ot/lp/_barycenter_solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index b3d6603..64ad980 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -407,6 +407,7 @@ def generalized_free_support_barycenter(
         a_list,
         Z_init,
         b,
+        weights=weights,
         numItermax=numItermax,
         stopThr=stopThr,
         verbose=verbose,
-- 
2.43.0


From 53444126bed04d44e0b011c66f38973186597fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 43/82] fix: entropic_fused_gromov_barycenters updates and
 returns its features

The updated features were bound to another name, so the initial features
were returned and their change was always measured as zero, which ended the
iterations after the first one.
---
 ot/gromov/_bregman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 5b43a62..906a2fd 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -2056,11 +2056,11 @@ def entropic_fused_gromov_barycenters(
 
         # update barycenters
         if not fixed_features:
-            X = update_barycenter_feature(
+            Y = update_barycenter_feature(
                 T, Ys, lambdas, p, target=False, check_zeros=False, nx=nx
             )
 
-            Ms = [dist(X, Ys[s]) for s in range(len(Ys))]
+            Ms = [dist(Y, Ys[s]) for s in range(len(Ys))]
 
         if not fixed_structure:
             C = update_barycenter_structure(
-- 
2.43.0


From c3e5a0e8b1501f5e7720b48a042e491959110d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 44/82] fix: fused Gromov-Wasserstein barycenters stop when
 structure and features have converged

With fixed features or a fixed structure the change of the fixed one is zero,
so the solvers stopped after their first iteration whatever the tolerance.
---
 ot/gromov/_bregman.py     | 2 +-
 ot/gromov/_gw.py          | 2 +-
 ot/gromov/_semirelaxed.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 906a2fd..f883799 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -2085,7 +2085,7 @@ def entropic_fused_gromov_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
diff --git a/ot/gromov/_gw.py b/ot/gromov/_gw.py
index 99d5bcf..f23c8a4 100644
--- a/ot/gromov/_gw.py
+++ b/ot/gromov/_gw.py
@@ -1471,7 +1471,7 @@ def fgw_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 671905c..ef0fc1e 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -2140,7 +2140,7 @@ def semirelaxed_fgw_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
-- 
2.43.0


From bb20c67aba730017da9dee294ce096056ef59bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 45/82] fix: translation invariant unbalanced Sinkhorn solves
 problems with two different marginal penalties

The powers of the masses in the updates were only right for equal penalties
(and one had the wrong sign): with reg_m1 != reg_m2 the iterations converged
to a plan that is not the solution.
---
 ot/unbalanced/_sinkhorn.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 296cf8d..1a04048 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1287,19 +1287,17 @@ def sinkhorn_unbalanced_translation_invariant(
     fi_1 = reg_m1 / (reg_m1 + reg) if reg_m1 != float("inf") else 1
     fi_2 = reg_m2 / (reg_m2 + reg) if reg_m2 != float("inf") else 1
 
-    k1 = (
-        reg * reg_m1 / ((reg + reg_m1) * (reg_m1 + reg_m2))
-        if reg_m1 != float("inf")
-        else 0
-    )
-    k2 = (
-        reg * reg_m2 / ((reg + reg_m2) * (reg_m1 + reg_m2))
-        if reg_m2 != float("inf")
-        else 0
-    )
-
-    k_rho1 = k1 * reg_m1 / reg if reg_m1 != float("inf") else 0
-    k_rho2 = k2 * reg_m2 / reg if reg_m2 != float("inf") else 0
+    # powers of the masses <a, u^(-reg / reg_m1)> and <b, v^(-reg / reg_m2)>
+    # in the updates of v and u
+    if reg_m1 == float("inf"):
+        k_rho1 = reg_m2 / (reg_m2 + reg) if reg_m2 != float("inf") else 0
+        k_rho2 = 0
+    elif reg_m2 == float("inf"):
+        k_rho1 = 0
+        k_rho2 = reg_m1 / (reg_m1 + reg)
+    else:
+        k_rho1 = reg_m1 * reg_m2 / ((reg_m1 + reg_m2) * (reg_m2 + reg))
+        k_rho2 = reg_m1 * reg_m2 / ((reg_m1 + reg_m2) * (reg_m1 + reg))
 
     if reg_m1 == float("inf") and reg_m2 == float("inf"):
         xi1, xi2 = 0, 0
@@ -1330,7 +1328,7 @@ def sinkhorn_unbalanced_translation_invariant(
         vprev = v
 
         Kv = nx.dot(K, v_)
-        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_**reg_ratio2) ** k_rho2
+        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_ ** (-reg_ratio2)) ** k_rho2
         u_ = u_hat * nx.sum(a * u_hat ** (-reg_ratio1)) ** (-xi_rho1)
 
         Ktu = nx.dot(K.T, u_)
-- 
2.43.0


From 651ec0e44e75a80df6ec11128fabbcabf8c382ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 46/82] fix: translation invariant unbalanced Sinkhorn treats
 several histograms separately

The masses of the updates were summed over all the histograms.
---
 ot/unbalanced/_sinkhorn.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 1a04048..fc7fa1f 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1328,12 +1328,12 @@ def sinkhorn_unbalanced_translation_invariant(
         vprev = v
 
         Kv = nx.dot(K, v_)
-        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_ ** (-reg_ratio2)) ** k_rho2
-        u_ = u_hat * nx.sum(a * u_hat ** (-reg_ratio1)) ** (-xi_rho1)
+        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_ ** (-reg_ratio2), axis=0) ** k_rho2
+        u_ = u_hat * nx.sum(a * u_hat ** (-reg_ratio1), axis=0) ** (-xi_rho1)
 
         Ktu = nx.dot(K.T, u_)
-        v_hat = (b / Ktu) ** fi_2 * nx.sum(a * u_ ** (-reg_ratio1)) ** k_rho1
-        v_ = v_hat * nx.sum(b * v_hat ** (-reg_ratio2)) ** (-xi_rho2)
+        v_hat = (b / Ktu) ** fi_2 * nx.sum(a * u_ ** (-reg_ratio1), axis=0) ** k_rho1
+        v_ = v_hat * nx.sum(b * v_hat ** (-reg_ratio2), axis=0) ** (-xi_rho2)
 
         if (
             nx.any(Ktu == 0.0)
@@ -1349,9 +1349,10 @@ def sinkhorn_unbalanced_translation_invariant(
             v = vprev
             break
 
-        t = (nx.sum(a * u_ ** (-reg_ratio1)) / nx.sum(b * v_ ** (-reg_ratio2))) ** (
-            fi_12 / reg
-        )
+        t = (
+            nx.sum(a * u_ ** (-reg_ratio1), axis=0)
+            / nx.sum(b * v_ ** (-reg_ratio2), axis=0)
+        ) ** (fi_12 / reg)
 
         u = u_ * t
         v = v_ / t
-- 
2.43.0


From bef23f9a8b6901dc0d80855c88f2f9feef53967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 47/82] fix: partial_cg works with its default line search

line_search_armijo does not have the signature that the solver calls.
---
 ot/optim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ot/optim.py b/ot/optim.py
index 6a37602..a5e40d7 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -676,7 +676,7 @@ def partial_cg(
     f,
     df,
     G0=None,
-    line_search=line_search_armijo,
+    line_search=None,
     numItermax=200,
     stopThr=1e-9,
     stopThr2=1e-9,
@@ -768,6 +768,11 @@ def partial_cg(
     n_extended, m_extended = a_extended.shape[0], b_extended.shape[0]
     nb_dummies = n_extended - n
 
+    if line_search is None:
+
+        def line_search(cost, G, deltaG, Mi, cost_G, df_G, **kwargs):
+            return line_search_armijo(cost, G, deltaG, Mi, cost_G, **kwargs)
+
     def lp_solver(a, b, Mi, **kwargs):
         # add dummy nodes to Mi
         Mi_extended = np.zeros((n_extended, m_extended), dtype=Mi.dtype)
-- 
2.43.0


From 0301cca3836e4cadec66e703b9cc90c1abd4525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 48/82] fix: partial_cg transports the required mass when the
 gradient is negative

The cost between the dummy points was computed from the linear cost only, so
they could be matched together (transporting too much mass) when the gradient
of the regularization outweighs it.
---
 ot/optim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/optim.py b/ot/optim.py
index a5e40d7..4c354a0 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -777,7 +777,8 @@ def partial_cg(
         # add dummy nodes to Mi
         Mi_extended = np.zeros((n_extended, m_extended), dtype=Mi.dtype)
         Mi_extended[:n, :m] = Mi
-        Mi_extended[-nb_dummies:, -nb_dummies:] = np.max(M) * 1e2
+        # the dummies must not be matched together, also where Mi is negative
+        Mi_extended[-nb_dummies:, -nb_dummies:] = np.max(np.abs(Mi)) * 1e2 or 1.0
 
         G_extended, log_ = emd(
             a_extended, b_extended, Mi_extended, numItermaxEmd, log=True
-- 
2.43.0


From 7184336cc6461e3f38ec43576e9185e3e1a730ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 49/82] fix: stabilized unbalanced and barycenter Sinkhorn
 return to a consistent state after numerical errors

The scalings were rolled back after the absorption had already changed the
potentials, so the returned plan was NaN or not the last finite iterate, and
the barycenters logged NaN scalings.
---
 ot/bregman/_barycenter.py  | 22 ++++++++++-------
 ot/unbalanced/_sinkhorn.py | 49 +++++++++++++++++++++-----------------
 2 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 0daf002..8eac72e 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -570,6 +570,8 @@ def barycenter_stabilized(
     beta = nx.zeros((dim,), type_as=M)
     q = nx.ones((dim,), type_as=M) / dim
     for ii in range(numItermax):
+        uprev = u
+        vprev = v
         qprev = q
         Kv = nx.dot(K, v)
         u = A / Kv
@@ -578,15 +580,6 @@ def barycenter_stabilized(
         # K already contains the absorbed potential beta
         q = bar * nx.exp(-beta / reg)
         v = q[:, None] / Ktu
-        absorbing = False
-        if nx.any(u > tau) or nx.any(v > tau):
-            absorbing = True
-            u_max, v_max = nx.max(u, 1), nx.max(v, 1)
-            u, v = u / u_max[:, None], v / v_max[:, None]
-            alpha = alpha + reg * nx.log(u_max)
-            beta = beta + reg * nx.log(v_max)
-            K = nx.exp((alpha[:, None] + beta[None, :] - M) / reg)
-        Kv = nx.dot(K, v)
         if (
             nx.any(Ktu == 0.0)
             or nx.any(nx.isnan(u))
@@ -597,8 +590,19 @@ def barycenter_stabilized(
             # we have reached the machine precision
             # come back to previous solution and quit loop
             warnings.warn("Numerical errors at iteration %s" % ii)
+            u = uprev
+            v = vprev
             q = qprev
             break
+        absorbing = False
+        if nx.any(u > tau) or nx.any(v > tau):
+            absorbing = True
+            u_max, v_max = nx.max(u, 1), nx.max(v, 1)
+            u, v = u / u_max[:, None], v / v_max[:, None]
+            alpha = alpha + reg * nx.log(u_max)
+            beta = beta + reg * nx.log(v_max)
+            K = nx.exp((alpha[:, None] + beta[None, :] - M) / reg)
+        Kv = nx.dot(K, v)
         if (ii % 10 == 0 and not absorbing) or ii == 0:
             # we can speed up the process by checking for the error only all
             # the 10th iterations
diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index fc7fa1f..2f52b0c 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1033,6 +1033,20 @@ def sinkhorn_stabilized_unbalanced(
         u = ((a / (Kv + 1e-16)) ** fi_1) * f_alpha
         Ktu = nx.dot(K.T, u)
         v = ((b / (Ktu + 1e-16)) ** fi_2) * f_beta
+        if (
+            nx.any(Ktu == 0.0)
+            or nx.any(nx.isnan(u))
+            or nx.any(nx.isnan(v))
+            or nx.any(nx.isinf(u))
+            or nx.any(nx.isinf(v))
+        ):
+            # we have reached the machine precision
+            # come back to previous solution and quit loop
+            warnings.warn("Numerical errors at iteration %s" % cpt)
+            u = uprev
+            v = vprev
+            break
+
         absorbing = False
         if nx.any(u > tau) or nx.any(v > tau):
             absorbing = True
@@ -1047,19 +1061,6 @@ def sinkhorn_stabilized_unbalanced(
             K = nx.exp((alpha[:, None] + beta[None, :] - M0) / reg)
         Kv = nx.dot(K, v)
 
-        if (
-            nx.any(Ktu == 0.0)
-            or nx.any(nx.isnan(u))
-            or nx.any(nx.isnan(v))
-            or nx.any(nx.isinf(u))
-            or nx.any(nx.isinf(v))
-        ):
-            # we have reached the machine precision
-            # come back to previous solution and quit loop
-            warnings.warn("Numerical errors at iteration %s" % cpt)
-            u = uprev
-            v = vprev
-            break
         if (cpt % 10 == 0 and not absorbing) or cpt == 0:
             # we can speed up the process by checking for the error only all
             # the 10th iterations
@@ -1506,6 +1507,8 @@ def barycenter_unbalanced_stabilized(
     beta = nx.zeros(dim, type_as=A)
     q = nx.ones(dim, type_as=A) / dim
     for i in range(numItermax):
+        uprev = u
+        vprev = v
         qprev = nx.copy(q)
         Kv = nx.dot(K, v)
         f_alpha = nx.exp(-alpha / (reg + reg_m))
@@ -1518,15 +1521,6 @@ def barycenter_unbalanced_stabilized(
         q = nx.dot(q, weights) ** (1 / (1 - fi))
         Q = q[:, None]
         v = ((Q / (Ktu + 1e-16)) ** fi) * f_beta
-        absorbing = False
-        if nx.any(u > tau) or nx.any(v > tau):
-            absorbing = True
-            u_max, v_max = nx.max(u, 1), nx.max(v, 1)
-            u, v = u / u_max[:, None], v / v_max[:, None]
-            alpha = alpha + reg * nx.log(u_max)
-            beta = beta + reg * nx.log(v_max)
-            K = nx.exp((alpha[:, None] + beta[None, :] - M) / reg)
-        Kv = nx.dot(K, v)
         if (
             nx.any(Ktu == 0.0)
             or nx.any(nx.isnan(u))
@@ -1537,8 +1531,19 @@ def barycenter_unbalanced_stabilized(
             # we have reached the machine precision
             # come back to previous solution and quit loop
             warnings.warn("Numerical errors at iteration %s" % cpt)
+            u = uprev
+            v = vprev
             q = qprev
             break
+        absorbing = False
+        if nx.any(u > tau) or nx.any(v > tau):
+            absorbing = True
+            u_max, v_max = nx.max(u, 1), nx.max(v, 1)
+            u, v = u / u_max[:, None], v / v_max[:, None]
+            alpha = alpha + reg * nx.log(u_max)
+            beta = beta + reg * nx.log(v_max)
+            K = nx.exp((alpha[:, None] + beta[None, :] - M) / reg)
+        Kv = nx.dot(K, v)
         if (i % 10 == 0 and not absorbing) or i == 0:
             # we can speed up the process by checking for the error only all
             # the 10th iterations
-- 
2.43.0


From 78861d31ee3be38a561f921bb6b84e5f91680400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 50/82] fix: stabilized unbalanced Sinkhorn does not compare
 scalings across an absorption

At the first iteration the change of the scalings was measured even when they
had just been absorbed, which ended the iterations at once with error 0 for
several histograms.
---
 ot/unbalanced/_sinkhorn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 2f52b0c..24f5c42 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1061,7 +1061,7 @@ def sinkhorn_stabilized_unbalanced(
             K = nx.exp((alpha[:, None] + beta[None, :] - M0) / reg)
         Kv = nx.dot(K, v)
 
-        if (cpt % 10 == 0 and not absorbing) or cpt == 0:
+        if cpt % 10 == 0 and not absorbing:
             # we can speed up the process by checking for the error only all
             # the 10th iterations
             err = nx.max(nx.abs(u - uprev)) / max(
-- 
2.43.0


From 2cbf30934c8a7862210b520f3e2c5b8575e50eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 51/82] fix: translation invariant unbalanced Sinkhorn detects
 numerical errors in the scalings it returns

Only the scalings before the translation were tested, so an overflow of the
translation gave NaN without a warning.
---
 ot/unbalanced/_sinkhorn.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 24f5c42..0a2c36b 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1336,12 +1336,20 @@ def sinkhorn_unbalanced_translation_invariant(
         v_hat = (b / Ktu) ** fi_2 * nx.sum(a * u_ ** (-reg_ratio1), axis=0) ** k_rho1
         v_ = v_hat * nx.sum(b * v_hat ** (-reg_ratio2), axis=0) ** (-xi_rho2)
 
+        t = (
+            nx.sum(a * u_ ** (-reg_ratio1), axis=0)
+            / nx.sum(b * v_ ** (-reg_ratio2), axis=0)
+        ) ** (fi_12 / reg)
+
+        u = u_ * t
+        v = v_ / t
+
         if (
             nx.any(Ktu == 0.0)
-            or nx.any(nx.isnan(u_))
-            or nx.any(nx.isnan(v_))
-            or nx.any(nx.isinf(u_))
-            or nx.any(nx.isinf(v_))
+            or nx.any(nx.isnan(u))
+            or nx.any(nx.isnan(v))
+            or nx.any(nx.isinf(u))
+            or nx.any(nx.isinf(v))
         ):
             # we have reached the machine precision
             # come back to previous solution and quit loop
@@ -1350,14 +1358,6 @@ def sinkhorn_unbalanced_translation_invariant(
             v = vprev
             break
 
-        t = (
-            nx.sum(a * u_ ** (-reg_ratio1), axis=0)
-            / nx.sum(b * v_ ** (-reg_ratio2), axis=0)
-        ) ** (fi_12 / reg)
-
-        u = u_ * t
-        v = v_ / t
-
         err_u = nx.max(nx.abs(u - uprev)) / max(
             nx.max(nx.abs(u)), nx.max(nx.abs(uprev)), 1.0
         )
-- 
2.43.0


From 35fbb0f8f97fbd779f9003ea5eabdb3edbc69c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 52/82] fix: entropic partial solvers return the last finite
 plan after numerical errors

They returned NaN, and one of them printed instead of warning.
---
 ot/partial/partial_solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index f6e1c65..ad3e24a 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -628,7 +628,9 @@ def _entropic_partial_wasserstein_sinkhorn(
         q3 = q3 * K2prev / K
 
         if nx.any(nx.isnan(K)) or nx.any(nx.isinf(K)):
-            print("Warning: numerical errors at iteration", cpt)
+            # come back to previous solution and quit loop
+            warnings.warn("Numerical errors at iteration %d" % cpt)
+            K = Kprev
             break
         if cpt % 10 == 0:
             err = nx.norm(Kprev - K)
@@ -795,6 +797,8 @@ def entropic_partial_wasserstein_logscale(
                 f"Numerical errors at iteration {cpt} of entropic_partial_wasserstein_logscale",
                 stacklevel=2,
             )
+            # come back to previous solution and quit loop
+            LK = LKprev
             break
         if cpt % 10 == 0:
             err = nx.norm(LKprev - LK)
-- 
2.43.0


From 9ea94edbbfee1b83e1f4f453c801761ef1e0e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 53/82] fix: absorption of several scalings leaves rows without
 mass alone

A point with zero mass in every histogram made the absorbed scaling 0/0.
---
 ot/bregman/_barycenter.py  | 3 +++
 ot/bregman/_sinkhorn.py    | 3 +++
 ot/unbalanced/_sinkhorn.py | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 8eac72e..5344c3d 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -598,6 +598,9 @@ def barycenter_stabilized(
         if nx.any(u > tau) or nx.any(v > tau):
             absorbing = True
             u_max, v_max = nx.max(u, 1), nx.max(v, 1)
+            # rows without mass are left as they are
+            u_max = nx.where(u_max > 0, u_max, nx.ones(u_max.shape, type_as=u_max))
+            v_max = nx.where(v_max > 0, v_max, nx.ones(v_max.shape, type_as=v_max))
             u, v = u / u_max[:, None], v / v_max[:, None]
             alpha = alpha + reg * nx.log(u_max)
             beta = beta + reg * nx.log(v_max)
diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 200441d..cec60a6 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1299,6 +1299,9 @@ def sinkhorn_stabilized(
         if nx.max(nx.abs(u)) > tau or nx.max(nx.abs(v)) > tau:
             if n_hists:
                 u_max, v_max = nx.max(u, 1), nx.max(v, 1)
+                # rows without mass are left as they are
+                u_max = nx.where(u_max > 0, u_max, nx.ones(u_max.shape, type_as=u_max))
+                v_max = nx.where(v_max > 0, v_max, nx.ones(v_max.shape, type_as=v_max))
                 alpha = alpha + reg * nx.log(u_max)
                 beta = beta + reg * nx.log(v_max)
                 u, v = u / u_max[:, None], v / v_max[:, None]
diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index 0a2c36b..34e0766 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1052,6 +1052,9 @@ def sinkhorn_stabilized_unbalanced(
             absorbing = True
             if n_hists:
                 u_max, v_max = nx.max(u, 1), nx.max(v, 1)
+                # rows without mass are left as they are
+                u_max = nx.where(u_max > 0, u_max, nx.ones(u_max.shape, type_as=u_max))
+                v_max = nx.where(v_max > 0, v_max, nx.ones(v_max.shape, type_as=v_max))
                 u, v = u / u_max[:, None], v / v_max[:, None]
             else:
                 u_max, v_max = nx.max(u), nx.max(v)
@@ -1539,6 +1542,9 @@ def barycenter_unbalanced_stabilized(
         if nx.any(u > tau) or nx.any(v > tau):
             absorbing = True
             u_max, v_max = nx.max(u, 1), nx.max(v, 1)
+            # rows without mass are left as they are
+            u_max = nx.where(u_max > 0, u_max, nx.ones(u_max.shape, type_as=u_max))
+            v_max = nx.where(v_max > 0, v_max, nx.ones(v_max.shape, type_as=v_max))
             u, v = u / u_max[:, None], v / v_max[:, None]
             alpha = alpha + reg * nx.log(u_max)
             beta = beta + reg * nx.log(v_max)
-- 
2.43.0


From 1c50ea8013cfa92b5193bd3bc4aed7f88ce14fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 54/82] fix: circular transport is right when the optimal cut
 is just below an integer

---
 ot/lp/solver_circle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index 7d5640a..e5b2774 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -100,8 +100,8 @@ def derivative_cost_on_circle(theta, u_values, v_values, u_cdf, v_cdf, p=2):
     v_values[mask_n] += nx.floor(theta)[mask_n] + 1
     v_values[mask_p] += nx.floor(theta)[mask_p]
 
-    if nx.any(mask_n) and nx.any(mask_p):
-        v_cdf_theta[mask_n] += 1
+    # also when no value is left on the other side (theta just below an integer)
+    v_cdf_theta[mask_n] += 1
 
     v_cdf_theta2 = nx.copy(v_cdf_theta)
     v_cdf_theta2[mask_n] = np.inf
@@ -195,8 +195,8 @@ def ot_cost_on_circle(theta, u_values, v_values, u_cdf, v_cdf, p):
     v_values[mask_n] += nx.floor(theta)[mask_n] + 1
     v_values[mask_p] += nx.floor(theta)[mask_p]
 
-    if nx.any(mask_n) and nx.any(mask_p):
-        v_cdf_theta[mask_n] += 1
+    # also when no value is left on the other side (theta just below an integer)
+    v_cdf_theta[mask_n] += 1
 
     # Put negative values at the end
     v_cdf_theta2 = nx.copy(v_cdf_theta)
-- 
2.43.0


From 3c9cc462642f22431cdfae6b0619bae6dda01702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 55/82] fix: sparse_ot_dist weighs the pairs by their own
 weights

---
 ot/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index fc5ed59..ee6bdca 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -390,7 +390,7 @@ def sparse_ot_dist(
     for b in range(0, len(i), batch_size):
         d += nx.sum(
             dist_idxs(i[b : b + batch_size], j[b : b + batch_size])
-            * w[i[b : b + batch_size]]
+            * w[b : b + batch_size]
         )
 
     return d
-- 
2.43.0


From 107de4a336bdc6b6c420c869c9bf42fd07dffca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 56/82] fix: lazy plans keep slices of length one and accept
 negative indices

---
 ot/bregman/_empirical.py |  4 ++--
 ot/bregman/_geomloss.py  | 26 +++++++++++++-------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ot/bregman/_empirical.py b/ot/bregman/_empirical.py
index 762356c..a2614f1 100644
--- a/ot/bregman/_empirical.py
+++ b/ot/bregman/_empirical.py
@@ -60,9 +60,9 @@ def get_sinkhorn_lazytensor(X_a, X_b, f, g, metric="sqeuclidean", reg=1e-1, nx=N
 
     def func(i, j, X_a, X_b, f, g, metric, reg):
         if isinstance(i, int):
-            i = slice(i, i + 1)
+            i = slice(i, i + 1 or None)  # also when i is -1
         if isinstance(j, int):
-            j = slice(j, j + 1)
+            j = slice(j, j + 1 or None)  # also when j is -1
         C = dist(X_a[i], X_b[j], metric=metric)
         return nx.exp(f[i, None] + g[None, j] - C / reg)
 
diff --git a/ot/bregman/_geomloss.py b/ot/bregman/_geomloss.py
index 73d8d5d..fcae59c 100644
--- a/ot/bregman/_geomloss.py
+++ b/ot/bregman/_geomloss.py
@@ -67,19 +67,19 @@ def get_sinkhorn_geomloss_lazytensor(
         else:
             C = dist(X_a_i, X_b_j, metric=metric)
 
-        # Robust broadcasting using nx backend (handles both numpy and torch)
-        # For scalars, slice to keep 1D; for arrays, index directly
-        f_i = f[i : i + 1] if isinstance(i, int) else f[i]
-        g_j = g[j : j + 1] if isinstance(j, int) else g[j]
-        a_i = a[i : i + 1] if isinstance(i, int) else a[i]
-        b_j = b[j : j + 1] if isinstance(j, int) else b[j]
-
-        f_i = nx.reshape(f_i, (-1, 1))
-        g_j = nx.reshape(g_j, (1, -1))
-        a_i = nx.reshape(a_i, (-1, 1))
-        b_j = nx.reshape(b_j, (1, -1))
-
-        return nx.squeeze(nx.exp((f_i + g_j - C) / (blur**2)) * a_i * b_j)
+        f_i = nx.reshape(f[i], (-1, 1))
+        g_j = nx.reshape(g[j], (1, -1))
+        a_i = nx.reshape(a[i], (-1, 1))
+        b_j = nx.reshape(b[j], (1, -1))
+
+        res = nx.exp((f_i + g_j - C) / (blur**2)) * a_i * b_j
+
+        # drop the axes indexed by an integer, but not slices of length one
+        if isinstance(j, int):
+            res = res[:, 0]
+        if isinstance(i, int):
+            res = res[0]
+        return res
 
     T = LazyTensor(
         shape, func, X_a=X_a, X_b=X_b, f=f, g=g, a=a, b=b, metric=metric, blur=blur
-- 
2.43.0


From d916673b22a78a429e69ea1f7e372188c8f5d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 57/82] fix: averaged SGD solves the semi-dual problem with
 non-uniform source weights

---
 ot/stochastic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index 25b08c6..a72872e 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -218,7 +218,10 @@ def averaged_sgd_entropic_transport(
     for cur_iter in range(numItermax):
         k = cur_iter + 1
         i = rng.randint(n_source)
-        cur_coord_grad = coordinate_grad_semi_dual(b, M, reg, cur_beta, i)
+        # n_source * a[i] makes the gradient unbiased for non-uniform a
+        cur_coord_grad = (
+            n_source * a[i] * coordinate_grad_semi_dual(b, M, reg, cur_beta, i)
+        )
         cur_beta += (lr / np.sqrt(k)) * cur_coord_grad
         ave_beta = (1.0 / k) * cur_beta + (1 - 1.0 / k) * ave_beta
     return ave_beta
-- 
2.43.0


From 17acd06805a5fc4174f248e9e8d0bf8b5853b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 58/82] fix: semi-dual gradients do not underflow for small
 regularization

---
 ot/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index a72872e..1ef2ecd 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -67,7 +67,7 @@ def coordinate_grad_semi_dual(b, M, reg, beta, i):
         Advances in Neural Information Processing Systems (2016).
     """
     r = M[i, :] - beta
-    exp_beta = np.exp(-r / reg) * b
+    exp_beta = np.exp(-(r - np.min(r)) / reg) * b
     khi = exp_beta / (np.sum(exp_beta))
     return b - khi
 
-- 
2.43.0


From 3dd1222f3587a2a0451f8c468593c1c9e5dc05e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 59/82] fix: marginals of a result are available whenever its
 plan is

---
 ot/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index ee6bdca..32098ff 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1323,16 +1323,18 @@ class OTResult:
     def marginals(self):
         """Marginals of the transport plan: should be very close to "a" and "b"
         for balanced OT."""
-        if self._plan is not None:
-            return self.marginal_a, self.marginal_b
+        marginal_a, marginal_b = self.marginal_a, self.marginal_b
+        if marginal_a is not None:
+            return marginal_a, marginal_b
         else:
             return None
 
     @property
     def marginal_a(self):
         """First marginal of the transport plan, with the same shape as "a"."""
-        if self._plan is not None:
-            return self._backend.sum(self._plan, 1)
+        plan = self.plan
+        if plan is not None:
+            return self._backend.sum(plan, 1)
         elif self._lazy_plan is not None:
             lp = self._lazy_plan
             bs = self._batch_size
@@ -1344,8 +1346,9 @@ class OTResult:
     @property
     def marginal_b(self):
         """Second marginal of the transport plan, with the same shape as "b"."""
-        if self._plan is not None:
-            return self._backend.sum(self._plan, 0)
+        plan = self.plan
+        if plan is not None:
+            return self._backend.sum(plan, 0)
         elif self._lazy_plan is not None:
             lp = self._lazy_plan
             bs = self._batch_size
-- 
2.43.0


From 32bed063ea51085a9bd6bc5a29d231cee09b7875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 60/82] fix: low-rank Sinkhorn reports the cost of the plan it
 returns

---
 ot/lowrank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index b0701fd..21c9bb3 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -507,7 +507,7 @@ def lowrank_sinkhorn(
 
     # Compute value_linear (using trace formula)
     A = nx.dot(M1.T, Q)
-    B = nx.dot(M2.T, R * diag_g)
+    B = nx.dot(M2.T, R / g[None, :])
     value_linear = nx.sum(A * B)
 
     # Compute value with entropy reg (see "Section 3.2" in the paper)
-- 
2.43.0


From 253a1b4ab8478145a417f3a0d43ff200dcdba3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 61/82] fix: entropic partial Gromov solvers accept tensors
 that require gradients

---
 ot/gromov/_partial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index 31dd4ca..e3c6e8f 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -1235,7 +1235,7 @@ def entropic_partial_gromov_wasserstein(
         assert nx.any(nx.sum(G0, 0) <= q)
 
     if symmetric is None:
-        symmetric = np.allclose(C1, C1.T, atol=1e-10) and np.allclose(
+        symmetric = nx.allclose(C1, C1.T, atol=1e-10) and nx.allclose(
             C2, C2.T, atol=1e-10
         )
 
@@ -1593,7 +1593,7 @@ def entropic_partial_fused_gromov_wasserstein(
         assert nx.any(nx.sum(G0, 0) <= q)
 
     if symmetric is None:
-        symmetric = np.allclose(C1, C1.T, atol=1e-10) and np.allclose(
+        symmetric = nx.allclose(C1, C1.T, atol=1e-10) and nx.allclose(
             C2, C2.T, atol=1e-10
         )
 
-- 
2.43.0


From f0ad8c0b961ce19f6cafe5ad3847ed89d168709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 62/82] fix: low-rank Sinkhorn values are those of the cost
 without rescaling

---
 ot/lowrank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index 21c9bb3..777511d 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -505,7 +505,8 @@ def lowrank_sinkhorn(
     # Compute lazy plan (using LazyTensor class)
     lazy_plan = get_lowrank_lazytensor(Q, R, 1 / g)
 
-    # Compute value_linear (using trace formula)
+    # Compute value_linear (using trace formula and the cost without rescaling)
+    M1, M2 = compute_lr_sqeuclidean_matrix(X_s, X_t, False, nx)
     A = nx.dot(M1.T, Q)
     B = nx.dot(M2.T, R / g[None, :])
     value_linear = nx.sum(A * B)
-- 
2.43.0


From d5ac33c4e9a58543315af2776240fe8ae96238da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 63/82] fix: entropic partial Gromov solvers iterate on tensors
 that require gradients

---
 ot/gromov/_partial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index e3c6e8f..d933079 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -1288,7 +1288,7 @@ def entropic_partial_gromov_wasserstein(
         M_entr = df(G0)
         G0 = entropic_partial_wasserstein(p, q, M_entr, reg, m)
         if cpt % 10 == 0:  # to speed up the computations
-            err = np.linalg.norm(G0 - Gprev)
+            err = nx.norm(G0 - Gprev)
             if log:
                 loge["err"].append(err)
             if verbose:
@@ -1650,7 +1650,7 @@ def entropic_partial_fused_gromov_wasserstein(
         M_entr = df(G0)
         G0 = entropic_partial_wasserstein(p, q, M_entr, reg, m)
         if cpt % 10 == 0:  # to speed up the computations
-            err = np.linalg.norm(G0 - Gprev)
+            err = nx.norm(G0 - Gprev)
             if log:
                 loge["err"].append(err)
             if verbose:
-- 
2.43.0


From 3143373cd8b4f69d1d41eac389abe30827b2436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 64/82] fix: Bures barycenter warns instead of printing when it
 does not converge

---
 ot/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index 7c25cd6..6166a5e 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -523,7 +523,7 @@ def bures_barycenter_fixpoint(
         Cb = Cnew
 
     if diff > eps:
-        print("Dit not converge.")
+        warnings.warn("The fixed point iteration did not converge.")
 
     if log:
         log = {}
-- 
2.43.0


From d337ad4c74d9a3ce3fe804cf23928da96a81e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 65/82] fix: regularization paths warn instead of printing

---
 ot/regpath.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ot/regpath.py b/ot/regpath.py
index aedc35b..0e20819 100644
--- a/ot/regpath.py
+++ b/ot/regpath.py
@@ -6,6 +6,8 @@ Regularization path OT solvers
 # Author: Haoran Wu <haoran.wu@univ-ubs.fr>
 # License: MIT License
 
+import warnings
+
 import numpy as np
 import scipy.sparse as sp
 
@@ -665,7 +667,7 @@ def fully_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=50
         n_iter += 1
 
     if itmax <= n_iter:
-        print("maximum iteration has been reached !")
+        warnings.warn("maximum iteration has been reached !")
 
     # correct the last solution and gamma
     if len(t_list) > 1:
@@ -676,7 +678,7 @@ def fully_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=50
         gamma_list[-1] = reg
     else:
         gamma_list[-1] = reg
-        print("Regularization path does not exist !")
+        warnings.warn("Regularization path does not exist !")
 
     return t_list[-1], t_list, gamma_list
 
@@ -820,7 +822,7 @@ def semi_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=500
         n_iter += 1
 
     if itmax <= n_iter:
-        print("maximum iteration has been reached !")
+        warnings.warn("maximum iteration has been reached !")
 
     # correct the last solution and gamma
     if len(t_list) > 1:
@@ -831,7 +833,7 @@ def semi_relaxed_path(a: np.array, b: np.array, C: np.array, reg=1e-4, itmax=500
         gamma_list[-1] = reg
     else:
         gamma_list[-1] = reg
-        print("Regularization path does not exist !")
+        warnings.warn("Regularization path does not exist !")
 
     return t_list[-1], t_list, gamma_list
 
-- 
2.43.0


From 0e1f8e4acd82c91a21f38686c4d33646de550afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 66/82] fix: marginals of the result of a batch are those of
 its members

---
 ot/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index 32098ff..c32457a 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1334,7 +1334,7 @@ class OTResult:
         """First marginal of the transport plan, with the same shape as "a"."""
         plan = self.plan
         if plan is not None:
-            return self._backend.sum(plan, 1)
+            return self._backend.sum(plan, -1)
         elif self._lazy_plan is not None:
             lp = self._lazy_plan
             bs = self._batch_size
@@ -1348,7 +1348,7 @@ class OTResult:
         """Second marginal of the transport plan, with the same shape as "b"."""
         plan = self.plan
         if plan is not None:
-            return self._backend.sum(plan, 0)
+            return self._backend.sum(plan, -2)
         elif self._lazy_plan is not None:
             lp = self._lazy_plan
             bs = self._batch_size
-- 
2.43.0


From 232225849b0ee6e46d57fcb1c1b653828c960959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 67/82] fix: nearest Brenier potentials raise ImportError
 without CVXPY

---
 ot/mapping.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ot/mapping.py b/ot/mapping.py
index bb1a78e..fb9c6e7 100644
--- a/ot/mapping.py
+++ b/ot/mapping.py
@@ -119,8 +119,7 @@ def nearest_brenier_potential_fit(
     try:
         import cvxpy as cvx
     except ImportError:
-        print("Please install CVXPY to use this function")
-        return
+        raise ImportError("Please install CVXPY to use this function")
     assert (
         X.shape == V.shape
     ), f"point shape should be the same as value shape, yet {X.shape} != {V.shape}"
@@ -327,8 +326,7 @@ def nearest_brenier_potential_predict_bounds(
     try:
         import cvxpy as cvx
     except ImportError:
-        print("Please install CVXPY to use this function")
-        return
+        raise ImportError("Please install CVXPY to use this function")
     nx = get_backend(X, phi, G, Y)
     X = to_numpy(X)
     phi = to_numpy(phi)
-- 
2.43.0


From 4b7aa4517c37a288a9d736bface4218ecff5736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 68/82] fix: quantized Gromov-Wasserstein uses the networkx
 methods when networkx is installed

---
 ot/gromov/_quantized.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 3dc2bc5..f740b4e 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -704,8 +704,8 @@ def quantized_fused_gromov_wasserstein(
                 default methods. Consider installing Networkx to fix this.
                 """
             )
-        part_method = "random"
-        rep_method = "random"
+            part_method = "random"
+            rep_method = "random"
 
     if (part_method in ["spectral", "spectral_fused"]) and (not sklearn_import):
         warnings.warn(
-- 
2.43.0


From f5d0c9d7ce5673d6c45b1b6bb5ad246feb5becfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 69/82] fix: graph partitions raise ImportError when their
 package is missing

---
 ot/gromov/_quantized.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index f740b4e..bb557e4 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -320,6 +320,11 @@ def get_graph_partition(
     if nx is None:
         nx = get_backend(C)
 
+    if part_method in ["louvain", "fluid"] and not networkx_import:
+        raise ImportError(f"Networkx must be installed to use {part_method=}")
+    if part_method == "spectral" and not sklearn_import:
+        raise ImportError(f"Scikit-learn must be installed to use {part_method=}")
+
     n = C.shape[0]
     C0 = C
 
@@ -417,6 +422,9 @@ def get_graph_representants(C, part, rep_method="pagerank", random_state=0, nx=N
     if nx is None:
         nx = get_backend(C, part)
 
+    if rep_method == "pagerank" and not networkx_import:
+        raise ImportError(f"Networkx must be installed to use {rep_method=}")
+
     rep_indices = []
     part_ids = nx.unique(part)
     n_part_ids = part_ids.shape[0]
@@ -908,6 +916,9 @@ def get_partition_and_representants_samples(
     if nx is None:
         nx = get_backend(X)
 
+    if method == "kmeans" and not sklearn_import:
+        raise ImportError(f"Scikit-learn must be installed to use {method=}")
+
     n = X.shape[0]
     X0 = X
 
-- 
2.43.0


From 00badb02bb170f7c57ac6b1b8aff0482237fd4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 70/82] fix: LP barycenter says when the solver asked for needs
 cvxopt

---
 ot/lp/_barycenter_solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index 64ad980..12c379c 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -122,6 +122,9 @@ def barycenter(A, M, weights=None, verbose=False, log=False, solver="highs-ipm")
     A_eq = sps.vstack((A_eq1, A_eq2))
     b_eq = np.concatenate((b_eq1, b_eq2))
 
+    if not cvxopt and solver in ["glpk", "mosek"]:
+        raise ImportError(f"cvxopt must be installed to use solver={solver!r}")
+
     if not cvxopt or solver in ["interior-point", "highs", "highs-ipm", "highs-ds"]:
         # cvxopt not installed or interior point
 
-- 
2.43.0


From 1f32c24bb3132dae3b4e2cb312f44ab7e8dceaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 71/82] fix: geomloss solver does not change requires_grad of
 the weights given

---
 ot/bregman/_geomloss.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ot/bregman/_geomloss.py b/ot/bregman/_geomloss.py
index fcae59c..91e9501 100644
--- a/ot/bregman/_geomloss.py
+++ b/ot/bregman/_geomloss.py
@@ -215,9 +215,11 @@ def empirical_sinkhorn2_geomloss(
         else:
             raise ValueError("geomloss only supports sqeuclidean and euclidean metrics")
 
-        # force gradients for computing dual
-        a_torch.requires_grad = True
-        b_torch.requires_grad = True
+        # force gradients for computing dual, without changing the inputs
+        if not a_torch.requires_grad:
+            a_torch = a_torch.detach().requires_grad_(True)
+        if not b_torch.requires_grad:
+            b_torch = b_torch.detach().requires_grad_(True)
 
         loss = SamplesLoss(
             loss="sinkhorn",
-- 
2.43.0


From fbbb95a95a24d54c91cdae5bb086fbbb98b2668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 72/82] fix: spectral initialization of semi-relaxed plans says
 when scikit-learn is missing

---
 ot/gromov/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 7195fea..c8c5edf 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -532,7 +532,9 @@ def semirelaxed_init_plan(
     ]:
         raise ValueError(f"Unsupported initialization method = {method}.")
 
-    if (method in ["kmeans", "kmeans_soft"]) and (not sklearn_import):
+    if (method in ["kmeans", "kmeans_soft", "spectral", "spectral_soft"]) and (
+        not sklearn_import
+    ):
         raise ValueError(f"Scikit-learn must be installed to use method = {method}")
 
     if (method in ["fluid", "fluid_soft"]) and (not networkx_import):
-- 
2.43.0


From ec3b80b324dffc8c885fd02e090b3100d9ef9865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 73/82] fix: fitting SinkhornTransport does not change its
 parameters

---
 ot/da.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 3cf02ad..3751e6e 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1286,10 +1286,11 @@ class SinkhornTransport(BaseTransport):
 
         super(SinkhornTransport, self).fit(Xs, ys, Xt, yt)
 
+        method, log = self.method, self.log
         if self.out_of_sample_map == "continuous":
-            self.log = True
-            if not self.method == "sinkhorn_log":
-                self.method = "sinkhorn_log"
+            log = True  # the map needs the dual variables
+            if not method == "sinkhorn_log":
+                method = "sinkhorn_log"
                 warnings.warn(
                     "The method has been set to 'sinkhorn_log' as it is the only method available for out_of_sample_map='continuous'"
                 )
@@ -1300,15 +1301,15 @@ class SinkhornTransport(BaseTransport):
             b=self.mu_t,
             M=self.cost_,
             reg=self.reg_e,
-            method=self.method,
+            method=method,
             numItermax=self.max_iter,
             stopThr=self.tol,
             verbose=self.verbose,
-            log=self.log,
+            log=log,
         )
 
         # deal with the value of log
-        if self.log:
+        if log:
             self.coupling_, self.log_ = returned_
         else:
             self.coupling_ = returned_
-- 
2.43.0


From c4b64e3e5c5c4a7752c95875b827e28ba5cd56d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 74/82] fix: EMDLaplaceTransport parameters can be read and set

---
 ot/da.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 3751e6e..e33f0c6 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1755,13 +1755,13 @@ class EMDLaplaceTransport(BaseTransport):
         distribution_estimation=distribution_estimation_uniform,
         out_of_sample_map="ferradans",
     ):
-        self.reg = reg_type
+        self.reg_type = reg_type
         self.reg_lap = reg_lap
         self.reg_src = reg_src
         self.metric = metric
         self.norm = norm
         self.similarity = similarity
-        self.sim_param = similarity_param
+        self.similarity_param = similarity_param
         self.max_iter = max_iter
         self.tol = tol
         self.max_inner_iter = max_inner_iter
@@ -1805,8 +1805,8 @@ class EMDLaplaceTransport(BaseTransport):
             xt=self.xt_,
             M=self.cost_,
             sim=self.similarity,
-            sim_param=self.sim_param,
-            reg=self.reg,
+            sim_param=self.similarity_param,
+            reg=self.reg_type,
             eta=self.reg_lap,
             alpha=self.reg_src,
             numItermax=self.max_iter,
-- 
2.43.0


From fcea1e6dffc5357a89742d5d363f6d6ee901ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 75/82] fix: LinearGWTransport keeps no log of an earlier fit

---
 ot/da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index e33f0c6..03c5bc1 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1155,7 +1155,7 @@ class LinearGWTransport(LinearTransport):
                 self.A1_,
                 self.B1_,
             ) = returned_1_
-            self.log_ = dict()
+            self.log_1_ = dict()
 
         return self
 
-- 
2.43.0


From 57ca54163239efc65ee5488dba3b6ddab8ecd6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 76/82] fix: JCPOTTransport passes max_iter to its solver

---
 ot/da.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/da.py b/ot/da.py
index 03c5bc1..c8c6793 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2419,7 +2419,7 @@ class JCPOTTransport(BaseTransport):
                 Xt=Xt,
                 reg=self.reg_e,
                 metric=self.metric,
-                distrinumItermax=self.max_iter,
+                numItermax=self.max_iter,
                 stopThr=self.tol,
                 verbose=self.verbose,
                 log=True,
-- 
2.43.0


From b1c8cc772366f16b778eac09307394af81bd29d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 77/82] fix: copies of a fitted DataScaler can be used

---
 ot/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index c32457a..251acb0 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1727,7 +1727,7 @@ class DataScaler:
 
         nx = get_backend(X)
 
-        if self._nx is not None and nx is not self._nx:
+        if self._nx is not None and type(nx) is not type(self._nx):
             raise ValueError(
                 "Backend mismatch: DataScaler was fitted with backend '{}' "
                 "but received input with backend '{}'.".format(
-- 
2.43.0


From 1c311e062afa1bd0cc29107e0703678c93078231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 78/82] fix: grad="last_step" gives the same plan and values as
 the other gradient modes

---
 ot/bregman/_sinkhorn.py | 1 +
 ot/solvers.py           | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index cec60a6..109b124 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -881,6 +881,7 @@ def sinkhorn_log(
         logb = nx.log(b)
 
         err = 1
+        ii = 0
         for ii in range(numItermax):
             v = logb - nx.logsumexp(Mr + u[:, None], 0)
             u = loga - nx.logsumexp(Mr + v[None, :], 1)
diff --git a/ot/solvers.py b/ot/solvers.py
index f559bbf..7a1aef9 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -465,7 +465,7 @@ def solve(
                     loga = nx.log(a0)
                     logb = nx.log(b0)
                     v = logb - nx.logsumexp(-M0 / reg + potentials[0][:, None], 0)
-                    u = loga - nx.logsumexp(-M0 / reg + potentials[1][None, :], 1)
+                    u = loga - nx.logsumexp(-M0 / reg + v[None, :], 1)
                     plan = nx.exp(-M0 / reg + u[:, None] + v[None, :])
                     potentials = (u, v)
                     log["niter"] = max_iter + 1
@@ -473,6 +473,7 @@ def solve(
                     log["log_v"] = v
                     log["u"] = nx.exp(u)
                     log["v"] = nx.exp(v)
+                    M, a, b = M0, a0, b0  # the values depend on the inputs too
 
                 value_linear = nx.sum(M * plan)
 
-- 
2.43.0


From 81f55755622751aeec38669bf6af41a06961073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 79/82] fix: envelope gradients of KL regularized transport
 with respect to the weights

---
 ot/solvers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 7a1aef9..38d0ab1 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -485,13 +485,17 @@ def solve(
                     )
 
                 if grad == "envelope":  # set the gradient at convergence
+                    ga, gb = potentials
+                    if reg_type.lower() == "kl":
+                        # the reference measure depends on the weights too
+                        ga, gb = ga - nx.log(a), gb - nx.log(b)
                     value = nx.set_gradients(
                         value,
                         (M0, a0, b0),
                         (
                             plan,
-                            reg * (potentials[0] - potentials[0].mean()),
-                            reg * (potentials[1] - potentials[1].mean()),
+                            reg * (ga - ga.mean()),
+                            reg * (gb - gb.mean()),
                         ),
                     )
 
-- 
2.43.0


From bcc4bddec844a2834a90e7c19d3a10ade4788903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 80/82] fix: last-step gradients of batch solvers include the
 direct dependence on the cost

---
 ot/batch/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/batch/_utils.py b/ot/batch/_utils.py
index ce5db46..4839943 100644
--- a/ot/batch/_utils.py
+++ b/ot/batch/_utils.py
@@ -153,6 +153,7 @@ def bregman_projection_batch(
         f = a / summand_f
         summand_g = nx.sum(K_ * f[:, :, None], axis=1)
         g = b / summand_g
+        K = K_
 
     T = K * f[:, :, None] * g[:, None, :]
     potentials = (f, g)
@@ -282,6 +283,7 @@ def bregman_log_projection_batch(
         u = loga - nx.logsumexp(summand_u, axis=2)
         summand_v = K_ + u[:, :, None]
         v = logb - nx.logsumexp(summand_v, axis=1)
+        K = K_
 
     log_T = K + u[:, :, None] + v[:, None, :]
     T = nx.exp(log_T)
-- 
2.43.0


From 22c733545df19dedc13f791d4db8ac39a3ed6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 81/82] fix: graph pooling accepts batches whose last nodes are
 isolated

---
 ot/gnn/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/gnn/_utils.py b/ot/gnn/_utils.py
index dc1342b..6329c9f 100644
--- a/ot/gnn/_utils.py
+++ b/ot/gnn/_utils.py
@@ -173,7 +173,9 @@ def FGW_distance_to_templates(
         for i in range(num_graphs):
             nodes = torch.where(batch == i)[0]
 
-            G_edges_i, _ = subgraph(nodes, edge_index=G_edges, relabel_nodes=True)
+            G_edges_i, _ = subgraph(
+                nodes, edge_index=G_edges, relabel_nodes=True, num_nodes=len(batch)
+            )
             G_features_i = G_features[nodes]
 
             n, n_feat = G_features_i.shape
-- 
2.43.0


From e7fd687a1776ec50544e51f34b18d4e90a19eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 82/82] fix: jcpot_barycenter does not shift the caller's
 labels in place

---
 ot/bregman/_barycenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 5344c3d..d782318 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -995,7 +995,7 @@ def jcpot_barycenter(
 
         # format classes to start from 0 for convenience
         if nx.min(classes) != 0:
-            Ys[d] -= nx.min(classes)
+            Ys[d] = Ys[d] - nx.min(classes)
             classes = nx.unique(Ys[d])
 
         # build the corresponding D_1 and D_2 matrices
-- 
2.43.0

