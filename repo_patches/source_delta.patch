From 46c19a0907a23aeec135773aab7c995952aa24d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 01/32] fix: find_heuristic_1pc raised TypeError (unhashable
 array) on graphs with edges outside the pure children's neighborhoods

---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 22af0c0..912dce0 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -247,7 +247,7 @@ def find_heuristic_1pc(graph):
     uncovered_edges = deque(
         {
             edge
-            for edge in np.argwhere(np.triu(graph, 1))
+            for edge in map(tuple, np.argwhere(np.triu(graph, 1)))
             if not np.logical_and(the_cover[:, edge[0]], the_cover[:, edge[1]]).any()
         }
     )
-- 
2.43.0


From 45310a7aea1c6b5c175ee4c9e0c9e7b72487623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 02/32] fix: rule 1 subtracted an edge between two
 simultaneously removed vertices twice from the neighborhood edge counts

---
 medil/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/medil/graph.py b/medil/graph.py
index 42a31e4..54e4755 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -217,8 +217,9 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                 # my own addition:
                 # self.nbrhood[:, vert] = 0
 
-            # remove isolated_verts from common neighborhoods
-            self.common_neighbors[:, isolated_verts] = 0
+                # remove vert from common neighborhoods, before the next
+                # vert, so that an edge between them isn't subtracted twice
+                self.common_neighbors[:, vert] = 0
 
         # max_num_edges = self.n_choose_2(self.unreduced.max_num_verts)
         # mask = lambda edge_idx: np.array(self.common_neighbors[edge_idx], dtype=bool)
-- 
2.43.0


From 8d9a53bbd674ec0c316082adaa383a8cd4e83740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 03/32] fix: rule 3 ignored covered edges when classifying
 prisoners and exits, and reconstruct_cover undid reductions out of order, so
 covers could contain non-cliques or miss vertices

---
 medil/graph.py | 52 +++++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/medil/graph.py b/medil/graph.py
index 54e4755..9bb5208 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -161,8 +161,9 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         self.nbrs = udg.nbrs
         self.get_edge = udg.get_edge
 
-        if hasattr(udg, "reduced_away"):  # then rule_3 wasn't applied
-            self.reduced_away = udg.reduced_away
+        if hasattr(udg, "reduced_away"):  # then rule_3 was applied
+            self.reduced_away = udg.reduced_away.copy()
+            self.reduced_order = udg.reduced_order.copy()
 
     def reset(self):
         self.__init__(self.unreduced)
@@ -274,22 +275,29 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         # a solution for the unreduced instance, add v to every clique
         # containing a prisoner of v.
 
-        for vert, nbrhood in enumerate(self.adj_matrix):
-            if nbrhood[vert] == 0:  # then nbrhood is empty
+        # prisoners and exits depend on all edges (covered or not) between
+        # the verts that haven't been removed
+        uncovered = self.adj_matrix.astype(bool)
+        extant = uncovered.diagonal()
+        full_adj = self.unreduced.adj_matrix.astype(bool) & np.outer(extant, extant)
+        uncovered = uncovered & ~np.eye(len(extant), dtype=bool)
+
+        for vert, nbrhood in enumerate(full_adj):
+            if not uncovered[vert].any():  # then nbrhood is empty
                 continue
-            exits = np.zeros(self.unreduced.max_num_verts, bool)
-            nbrs = np.flatnonzero(nbrhood)
-            for nbr in nbrs:
-                if (nbrhood.astype(int) - self.adj_matrix[nbr].astype(int) == -1).any():
-                    exits[nbr] = True
+            exits = nbrhood & (full_adj & ~nbrhood).any(1)
             # exits[j] == True iff j is an exit for vert
             # prisoners[j] == True iff j is a prisoner of vert
-            prisoners = np.logical_and(~exits, self.adj_matrix[vert])
+            prisoners = np.logical_and(~exits, nbrhood)
             prisoners[vert] = False  # a vert isn't its own prisoner
 
-            # check if each exit is adjacent to at least one prisoner
-            prisoners_dominate_exits = self.adj_matrix[prisoners][:, exits].sum(0)
-            if prisoners_dominate_exits.all():  # apply the rule
+            # only verts with an uncovered edge to vert matter: check if
+            # each such exit has an uncovered edge to at least one
+            # prisoner, and each such prisoner to at least one other vert
+            dominated = uncovered[prisoners].any(0)
+            not_only_vert = uncovered.sum(0) > uncovered[vert]
+            prisoners_dominate_exits = np.where(prisoners, not_only_vert, dominated)
+            if prisoners_dominate_exits[uncovered[vert]].all():  # apply the rule
                 self.reducing = True
                 if self.verbose:
                     print("\t\t\tapplying Rule 3...")
@@ -308,7 +316,10 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                 # keep track of deleted nodes and their prisoners for reconstructing solution
                 if not hasattr(self, "reduced_away"):
                     self.reduced_away = np.zeros_like(self.adj_matrix, bool)
+                    self.reduced_order = []
                 self.reduced_away[vert] = prisoners
+                num_prior = 0 if self.the_cover is None else len(self.the_cover)
+                self.reduced_order.append((vert, num_prior))
                 break
 
     def choose_nbrhood(self):
@@ -382,16 +393,13 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         if not hasattr(self, "reduced_away"):  # then rule_3 wasn't applied
             return the_cover
 
-        # add the reduced away vert to all covering cliques containing at least one of its prisoners
-        to_expand = np.flatnonzero(self.reduced_away.sum(1))
-        for vert in to_expand:
+        # add the reduced away vert to all covering cliques containing at
+        # least one of its prisoners, undoing the reductions in reverse
+        # order; cliques from before a reduction don't change
+        for vert, num_prior in reversed(self.reduced_order):
             prisoners = self.reduced_away[vert]
-            tiled_prisoners = np.tile(
-                prisoners, (len(the_cover), 1)
-            )  # instead of another loop
-            cliques_to_update_mask = (
-                np.logical_and(tiled_prisoners, the_cover).sum(1).astype(bool)
-            )
+            cliques_to_update_mask = the_cover[:, prisoners].any(1)
+            cliques_to_update_mask[:num_prior] = False
             the_cover[cliques_to_update_mask, vert] = 1
 
         return the_cover
-- 
2.43.0


From 401286dbc2db8f833795751f349e9faa390dd136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 04/32] fix: choose_nbrhood dropped already covered edges, so
 branching missed the maximal cliques containing them

---
 medil/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/medil/graph.py b/medil/graph.py
index 9bb5208..75a01e8 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -333,7 +333,8 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
 
         mask = common_neighbors[chosen_edge_idx].astype(bool)
 
-        chosen_nbrhood = self.adj_matrix.copy()
+        # covered edges can still be part of a clique in the cover
+        chosen_nbrhood = self.unreduced.adj_matrix.copy()
         chosen_nbrhood[~mask, :] = 0
         chosen_nbrhood[:, ~mask] = 0
         if chosen_nbrhood.sum() <= mask.sum():
-- 
2.43.0


From 86d9c4441d49e86b4ab75bdf6b19191f08284515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 05/32] fix: find_clique_min_cover failed on adjacency matrices
 without self loops, as returned by estimate_UDG

---
 medil/ecc_algorithms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 912dce0..49487d8 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -35,6 +35,10 @@ def find_clique_min_cover(graph, verbose=False):
     :cite:`Gramm_2009`.
 
     """
+    # UndirectedDependenceGraph needs a diagonal of ones
+    graph = np.array(graph, dtype=int)
+    np.fill_diagonal(graph, 1)
+
     graph = UndirectedDependenceGraph(graph, verbose)
     try:
         graph.make_aux()
-- 
2.43.0


From fcde961f36ad79b0fdaadc7b1483e84d795e4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 06/32] fix: branch returned covers without the vertices
 removed by rule 3

---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 49487d8..f680691 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -120,7 +120,7 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
         return None
 
     if branch_graph.num_edges == 0:  # equiv to len(branch_graph.extant_edges_idx)==0
-        return (
+        return branch_graph.reconstruct_cover(
             branch_graph.the_cover
         )  # not in paper, but speeds it up slightly; or rather return None?
 
-- 
2.43.0


From 1e069dce673d5116eac7e77ef153958f9a78bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 07/32] fix: branch returned covers with one clique more than
 tested for, so the cover wasn't always minimum

---
 medil/ecc_algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index f680691..ec0c2fb 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -124,6 +124,9 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
             branch_graph.the_cover
         )  # not in paper, but speeds it up slightly; or rather return None?
 
+    if k_num_cliques == 0:  # then no clique is left for the uncovered edges
+        return None
+
     chosen_nbrhood = branch_graph.choose_nbrhood()
     # print("num cliques: {}".format(len([x for x in max_cliques(chosen_nbrhood)])))
     for clique_nodes in max_cliques(chosen_nbrhood):
-- 
2.43.0


From 5a9ae2343bc2098fc8a31a99eef4f9c29b526c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 08/32] fix: find_clique_min_cover returned incomplete covers
 beyond three levels of branching; bound the search by visited nodes instead
 and still return a complete cover

---
 medil/ecc_algorithms.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index ec0c2fb..1c92b09 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -1,13 +1,14 @@
 """Implementations of edge clique clover finding algorithms."""
-import subprocess, os, shutil
+import subprocess, os, shutil, warnings
 from collections import deque
+from itertools import count
 
 import numpy as np
 
 from .graph import UndirectedDependenceGraph
 
 
-def find_clique_min_cover(graph, verbose=False):
+def find_clique_min_cover(graph, verbose=False, iteration_max=10000):
     """Returns the clique-minimum edge clique cover.
 
     Parameters
@@ -18,6 +19,11 @@ def find_clique_min_cover(graph, verbose=False):
     verbose : bool, optional
               Wether or not to print verbose output.
 
+    iteration_max : int, optional
+                    Maximum number of search tree nodes to visit. If
+                    reached, a warning is issued and the cover returned,
+                    though complete, might not be minimum.
+
     Returns
     -------
     the_cover: np.array
@@ -48,6 +54,7 @@ def find_clique_min_cover(graph, verbose=False):
 
     num_cliques = 1
     the_cover = None
+    iteration = count(1)  # shared by all branches
     if True:  # verbose:
         # find bound for cliques in solution
         max_intersect_num = graph.num_vertices**2 // 4
@@ -63,8 +70,12 @@ def find_clique_min_cover(graph, verbose=False):
                     num_cliques, max_intersect_num
                 )
             )
-        the_cover = branch(graph, num_cliques, the_cover, iteration=0, iteration_max=3)
+        the_cover = branch(graph, num_cliques, the_cover, iteration, iteration_max)
         num_cliques += 1
+        if the_cover is None and next(iteration) > iteration_max:
+            warnings.warn("Reached `iteration_max`; the cover might not be minimum.")
+            # with this many cliques, no branch is a dead end
+            the_cover = branch(graph, graph.num_edges, None, count(1), np.inf)
 
     return add_isolated_verts(the_cover)
 
@@ -86,9 +97,11 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
     the_cover : np.array
                 Biadjacency matrix representing (possibly partial) edge clique cover.
 
-    iteration: current iteration
+    iteration : iterator
+                Counts the search tree nodes visited so far.
 
-    iteration_max: maximum number of iteration_max
+    iteration_max : int
+                    Maximum number of search tree nodes to visit.
 
     Returns
     -------
@@ -97,7 +110,9 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
 
     """
 
-    iteration = iteration + 1
+    if next(iteration) > iteration_max:
+        return None
+
     branch_graph = graph.reducible_copy()
     # if the_cover is not None:
     #     print(the_cover)
@@ -140,10 +155,6 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
             else np.vstack((branch_graph.the_cover, clique))
         )
 
-        # print(iteration)
-        if iteration > iteration_max:
-            return branch_graph.the_cover
-
         the_cover_prime = branch(
             branch_graph,
             k_num_cliques - 1,
-- 
2.43.0


From 392def7a4778ded0fb6a9d02048ad3891411826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 09/32] fix: sample.mcm ignored its rng when generating the
 graph and when sampling from the model, so results weren't reproducible

---
 medil/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/sample.py b/medil/sample.py
index f3f41f3..6f75964 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -14,9 +14,9 @@ def mcm(
     **kwargs,
 ) -> GaussianMCM:
     if biadj.size == 0:
-        biadj = _biadj(**kwargs)
+        biadj = _biadj(rng=rng, **kwargs)
     if parameterization == "Gaussian":
-        mcm = GaussianMCM(biadj=biadj)
+        mcm = GaussianMCM(biadj=biadj, rng=rng)
         params = mcm.parameters
 
         num_edges = biadj.sum()
-- 
2.43.0


From 32cedf06ccd46993018e9075ec66f6299f64e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 10/32] fix: integer biadjacency matrices, as in
 medil.examples, were used as index arrays when sampling and fitting

---
 medil/models.py | 2 +-
 medil/sample.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 1fdb927..813f4c0 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -33,7 +33,7 @@ class MedilCausalModel(object):
         one_pure_child: bool = True,
         rng=default_rng(0),
     ) -> None:
-        self.biadj = biadj
+        self.biadj = np.asarray(biadj, dtype=bool)
         self.udg = udg
         self.one_pure_child = one_pure_child
         self.rng = rng
diff --git a/medil/sample.py b/medil/sample.py
index 6f75964..df32fa5 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -15,6 +15,7 @@ def mcm(
 ) -> GaussianMCM:
     if biadj.size == 0:
         biadj = _biadj(rng=rng, **kwargs)
+    biadj = np.asarray(biadj, dtype=bool)
     if parameterization == "Gaussian":
         mcm = GaussianMCM(biadj=biadj, rng=rng)
         params = mcm.parameters
-- 
2.43.0


From 93599c55f8bdf3df4650e26d01ee6162fb037e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 11/32] fix: the BIC-based UDG estimate depended on the
 measurement scale, using cov * corr instead of the squared correlation

---
 medil/models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 813f4c0..4a70973 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -118,9 +118,8 @@ class GaussianMCM(MedilCausalModel):
     def _estimate_udg(self):
         """Constraint-based structure learning."""
         samp_size = len(self.dataset)
-        cov = np.cov(self.dataset, rowvar=False)
         corr = np.corrcoef(self.dataset, rowvar=False)
-        inner_numerator = 1 - cov * corr  # should never be <= 0?
+        inner_numerator = 1 - corr**2  # should never be < 0
         inner_numerator = inner_numerator.clip(min=0.00001)
         inner_numerator[np.tril_indices_from(inner_numerator)] = 1
         udg_triu = np.log(inner_numerator) < (-np.log(samp_size) / samp_size)
-- 
2.43.0


From c8ee899ecefcb4fbfb88f8d8a1d697d0064b2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 12/32] fix: GaussianMCM.fit could estimate negative error
 variances

---
 medil/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 4a70973..dd9257e 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -98,7 +98,11 @@ class GaussianMCM(MedilCausalModel):
                 (cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars)) ** 2
             ).sum()
 
-        result = minimize(_objective, np.ones(num_weights + num_err_vars))
+        # weights are unbounded, but variances can't be negative
+        bounds = [(None, None)] * num_weights + [(0, None)] * num_err_vars
+        result = minimize(
+            _objective, np.ones(num_weights + num_err_vars), bounds=bounds
+        )
         if not result.success:
             warnings.warn(f"Optimization failed: {result.message}")
 
-- 
2.43.0


From 1f8be1e64ccd7b60b8f311d1295bf7a6bf6ff463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 13/32] fix: NeuroCausalFactorAnalysis.fit didn't use the
 standardized dataset with explicit split indices

---
 medil/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index dd9257e..5d097b4 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -199,8 +199,8 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
                 standardized, train_size=0.7, random_state=self.seed
             )
         else:
-            train_split = dataset[split_idcs[0]]
-            valid_split = dataset[split_idcs[1]]
+            train_split = standardized[split_idcs[0]]
+            valid_split = standardized[split_idcs[1]]
 
         train_loader = self._data_loader(train_split)
         valid_loader = self._data_loader(valid_split)
-- 
2.43.0


From 21221fd87f202e84fd415827ff123ae3080ac355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 14/32] fix: NeuroCausalFactorAnalysis's seed didn't determine
 the trained model

---
 medil/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/models.py b/medil/models.py
index 5d097b4..c8494a2 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -206,6 +206,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         valid_loader = self._data_loader(valid_split)
 
         np.random.seed(self.seed)
+        torch.manual_seed(self.seed)
 
         model_recon, loss_recon, error_recon = self._train_vae(
             train_loader, valid_loader
-- 
2.43.0


From 41af612bea287842d3d58c293d7c07a5c63095c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 15/32] fix: NeuroCausalFactorAnalysis trained in evaluation
 mode, i.e., without sampling latents, after the first epoch

---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index c8494a2..c9376e3 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -277,13 +277,13 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         self.log(f"Number of parameters: {num_params}")
 
         # training loop
-        model.train()
         train_elbo, train_error = [], []
         valid_elbo, valid_error = [], []
 
         for idx in range(self.hyperparams["num_epochs"]):
             self.log(f"Training on epoch {idx}...")
             train_lb, train_er, nbatch = 0.0, 0.0, 0
+            model.train()  # validation sets the model to evaluation mode
 
             for x_batch, _ in train_loader:
                 batch_size = x_batch.shape[0]
-- 
2.43.0


From f8374fa6b55ed3bfc6a78ff0b3df346c45dc8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 16/32] fix: the training log was written outside of the path
 given without a trailing slash

---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index c9376e3..a85daeb 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -183,7 +183,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
 
     def log(self, entry: str) -> None:
         time_stamped_entry = f"{datetime.now().strftime('%Y-%m-%d %H:%M:%S')} {entry}"
-        with open(f"{self.path}training.log", "a") as log_file:
+        with open(os.path.join(self.path, "training.log"), "a") as log_file:
             log_file.write(time_stamped_entry + "\n")
         if self.verbose:
             print(time_stamped_entry)
-- 
2.43.0


From 421714c053a48da156e6b2e6867a6400c8188285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 17/32] fix: DevMedil.sample raised an error even after fitting

---
 medil/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/medil/models.py b/medil/models.py
index a85daeb..c405aa9 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -523,6 +523,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
 
@@ -577,6 +578,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
+        self.W_hat_lse, self.D_hat_lse = self.W_hat, self.D_hat
         self.convergence_success_lse = result.success
         self.convergence_message_lse = result.message
 
-- 
2.43.0


From 3d979bc7ab7213669297c631552c38e74656306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 18/32] fix: the penalized LSE minimized the loss for other
 (possibly negative) error variances than it returned

---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index c405aa9..495a2d2 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -560,7 +560,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_lse_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             loss = norm(Sigma_hat - W.T @ W - D, "fro") ** 2
             # nuclear norm for the first penalty term
-- 
2.43.0


From cb4c328978c7215e6b6c3d58387a202bf1c219a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 19/32] fix: the decoder's hidden layers weren't registered, so
 they were neither trained nor part of the state dict

---
 medil/vae.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/medil/vae.py b/medil/vae.py
index ba9677d..96a6836 100644
--- a/medil/vae.py
+++ b/medil/vae.py
@@ -94,22 +94,26 @@ class Decoder(Block):
         hidden_blocks = [hidden_block for _ in range(num_meas)]
         hidden_mask = torch.block_diag(*hidden_blocks)
 
-        self.mean_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
-        self.cov_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
+        self.mean_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
+        self.cov_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
 
         output_block = torch.ones(1, width_per_meas)
         output_blocks = [output_block for _ in range(num_meas)]
-- 
2.43.0


From 23deb55af52f6256126b392d695d7a4426681ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 20/32] fix: dcov omitted the diagonal and half of the
 off-diagonal terms of the sample distance covariance

---
 medil/independence_testing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index dd9f1ac..c15d74f 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -27,6 +27,7 @@ def dcov(samples):
     num_samps, num_feats = samples.shape
     num_pairs = num_samps * (num_samps - 1) // 2
     dists = np.zeros((num_feats, num_pairs))
+    diags = np.zeros((num_feats, num_samps))
     d_bars = np.zeros(num_feats)
     # compute doubly centered distance matrix for every feature:
     for feat_idx in range(num_feats):
@@ -37,10 +38,12 @@ def dcov(samples):
         # doubly centered:
         d_bar = d.mean()
         d -= t(d.mean(0), (n, 1)) + t(d.mean(1), (n, 1)).T - t(d_bar, (n, n))
+        diags[feat_idx] = d.diagonal()
         d = squareform(d, checks=False)  # ignore assymmetry due to numerical error
         dists[feat_idx] = d
         d_bars[feat_idx] = d_bar
-    return dists @ dists.T / num_samps**2, d_bars
+    # each pair of samples counts twice
+    return (2 * (dists @ dists.T) + diags @ diags.T) / num_samps**2, d_bars
 
 
 def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
-- 
2.43.0


From 63ffb8b2321b44824af7642b1c61ea2e741b8e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 21/32] fix: estimate_UDG failed with an unrelated
 UnboundLocalError for invalid methods

---
 medil/independence_testing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index c15d74f..ccd5753 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -59,7 +59,9 @@ def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
         udg = test_val >= crit_val
         p_vals = None
     elif method == "g-test":
-        pass
+        raise NotImplementedError
+    elif method not in ("dcov_big", "xicor"):
+        raise ValueError(f"Method '{method}' is invalid.")
     else:
         p_vals = np.zeros((num_feats, num_feats), float)
         idxs, jdxs = np.triu_indices(num_feats, 1)
-- 
2.43.0


From e41585a538b7b1d0ead047fddd3b5edec2d998b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 22/32] fix: minimum permutation distances truncated the true
 weights when given integer predictions

---
 medil/evaluate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index 7784dcb..1e08083 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -53,7 +53,7 @@ def recover_ug(biadj_mat):
 
 
 def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros_like(predicted_W, dtype=float)
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
@@ -75,7 +75,7 @@ def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
 
 
 def min_perm_squared_l2_dist_abs(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros_like(predicted_W, dtype=float)
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
-- 
2.43.0


From 61f0d4a199bbea871ddc52dc9afa4d7764237fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 23/32] fix: plotting a UDG or a pairwise plot raised NameError
 (undefined get_adj_from_incidence, missing pandas import)

---
 medil/visualize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/medil/visualize.py b/medil/visualize.py
index a59f5ce..72ba68e 100644
--- a/medil/visualize.py
+++ b/medil/visualize.py
@@ -3,13 +3,16 @@ import numpy as np
 import matplotlib.pyplot as plt
 import seaborn as sns
 import networkx as nx
+import pandas as pd
+
+from .evaluate import recover_ug
 
 
 def show_obs_adj_mat(incidence_mat):
 
     fig, ax = plt.subplots()
 
-    adj_mat = get_adj_from_incidence(incidence_mat)
+    adj_mat = recover_ug(incidence_mat).astype(bool)
     plt.imshow(adj_mat)
 
     dim = adj_mat.shape[0]
-- 
2.43.0


From 448d63def647e8613b0097e1010160f3d540eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 24/32] fix: xicorr averaged tied ranks instead of counting
 them, so independent data with ties in y looked dependent

---
 medil/independence_testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index ccd5753..bae4620 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -110,8 +110,8 @@ def _xicorr(x: npt.NDArray[np.float64], y: npt.NDArray[np.float64]) -> _XiCorr:
     # https://github.com/cran/XICOR/blob/master/R/calculateXI.R
     n = x.size
     PI = rankdata(x, method="average")
-    fr = rankdata(y, method="average") / n
-    gr = rankdata(-y, method="average") / n
+    fr = rankdata(y, method="max") / n
+    gr = rankdata(-y, method="max") / n
     cu = np.mean(gr * (1 - gr))
     A1 = np.abs(np.diff(fr[np.argsort(PI, kind="quicksort")])).sum() / (2 * n)
     xi = 1.0 - A1 / cu
-- 
2.43.0


From 862e631f6c76dc743ed614cfe949c9343e62a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 25/32] fix: xicorr ranked unsigned integers incorrectly and
 failed for Booleans

---
 medil/independence_testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index bae4620..41c2a6d 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -169,7 +169,7 @@ def xicorr(x: npt.ArrayLike, y: npt.ArrayLike, ties: bool = True) -> XiCorrResul
     """
     # https://git.io/JSIlN
     x = np.asarray(x).ravel()
-    y = np.asarray(y).ravel()
+    y = np.asarray(y, dtype=float).ravel()
 
     if x.size != y.size:
         raise ValueError(
-- 
2.43.0


From 4cb5d4f3f9d7b6dc7d4a8848ed21844d4d4db6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 26/32] fix: GaussianMCM.fit stopped far from an optimum for
 datasets in small or large units

---
 medil/models.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 495a2d2..f19b711 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -83,6 +83,10 @@ class GaussianMCM(MedilCausalModel):
         self.parameters.error_means = self.dataset.mean(0)
 
         cov = np.cov(self.dataset, rowvar=False)
+        # the optimizer's starting point and tolerances are absolute, so
+        # change units unless the largest variance is between 1 and 100
+        unit = cov.max() / cov.max().clip(1, 100) or 1
+        cov = cov / unit
 
         num_weights = self.biadj.sum()
         num_err_vars = self.biadj.shape[1]
@@ -106,10 +110,10 @@ class GaussianMCM(MedilCausalModel):
         if not result.success:
             warnings.warn(f"Optimization failed: {result.message}")
 
-        self.parameters.error_variances = result.x[num_weights:]
+        self.parameters.error_variances = result.x[num_weights:] * unit
 
         self.parameters.biadj_weights = np.zeros_like(self.biadj, float)
-        self.parameters.biadj_weights[self.biadj] = result.x[:num_weights]
+        self.parameters.biadj_weights[self.biadj] = result.x[:num_weights] * unit**0.5
 
         return self
 
-- 
2.43.0


From 5e43185ba9b9b5e23fb41f129066ca354b2bc670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 27/32] fix: GaussianMCM.fit could stop near saddle points with
 the optimizer's default relative tolerance

---
 medil/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index f19b711..b63b725 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -104,8 +104,12 @@ class GaussianMCM(MedilCausalModel):
 
         # weights are unbounded, but variances can't be negative
         bounds = [(None, None)] * num_weights + [(0, None)] * num_err_vars
+        # the default tolerance can end the search near a saddle point
         result = minimize(
-            _objective, np.ones(num_weights + num_err_vars), bounds=bounds
+            _objective,
+            np.ones(num_weights + num_err_vars),
+            bounds=bounds,
+            options={"ftol": 1e-15, "maxfun": 100000},
         )
         if not result.success:
             warnings.warn(f"Optimization failed: {result.message}")
-- 
2.43.0


From 939927c6b0d339df0c1d482dd604fe7cbad4e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 28/32] fix: the penalized MLE could return negative error
 variances, from which sampling doesn't follow the estimated model

---
 medil/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index b63b725..16ed40f 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -505,7 +505,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_mle_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             Sigma = self.compute_sigma(W, D)
             Sigma_inv = np.linalg.inv(Sigma)
@@ -530,7 +530,7 @@ class DevMedil(MedilCausalModel):
         result = minimize(penalized_mle_loss, initial_W_and_D, method="BFGS")
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
-        self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
         self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
-- 
2.43.0


From 6b68c90e1259e4a12e3f0e7034d6b80227c3d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 29/32] fix: resetting a reduced graph kept its reconstruction
 data, so covers completed afterwards could contain non-cliques

---
 medil/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/graph.py b/medil/graph.py
index 75a01e8..2a374c6 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -166,7 +166,9 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
             self.reduced_order = udg.reduced_order.copy()
 
     def reset(self):
-        self.__init__(self.unreduced)
+        unreduced = self.unreduced
+        self.__dict__.clear()  # including what rule_3 stores
+        self.__init__(unreduced)
 
     def reduzieren(self, k_num_cliques):
         # reduce by first applying rule 1 and then repeatedly applying
-- 
2.43.0


From 292ae88b3b7dafe10972e4d985fdd7e58d5d7a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 30/32] fix: distance correlation test of integer samples

dcor computes in the sample's dtype, so that small integer types overflow.
---
 medil/independence_testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index 41c2a6d..60d8fd6 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -81,7 +81,7 @@ def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
 
 
 def dcor_test(x_y):
-    x, y = x_y
+    x, y = x_y.astype(float)  # dcor overflows for small integer types
     return distance_correlation_t_test(x, y).pvalue
 
 
-- 
2.43.0


From 1318307e9664a9c4afaf49a7ad726c38e4ee2ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 31/32] fix: undirected graph of many latents with small
 integer types

The number of latents shared by two measurements overflowed, e.g. 256 of
them to 0 with 8 bits.
---
 medil/evaluate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index 1e08083..063a701 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -45,6 +45,10 @@ def recover_ug(biadj_mat):
     ug: the recovered undirected graph
     """
 
+    # numbers of shared latents can exceed small integer types
+    if np.issubdtype(biadj_mat.dtype, np.integer):
+        biadj_mat = biadj_mat.astype(int)
+
     # get the undirected graph from the directed graph
     ug = biadj_mat.T @ biadj_mat
     np.fill_diagonal(ug, False)
-- 
2.43.0


From 766a339332bc9a0068fdf56765ff1b5924e46ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 32/32] fix: magnitudes of the smallest signed integers in
 permutation distances

|-128| isn't representable with 8 bits.
---
 medil/evaluate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index 063a701..2bf55b0 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -86,7 +86,7 @@ def min_perm_squared_l2_dist_abs(predicted_W: npt.NDArray, true_W: npt.NDArray):
 
     def perm_squared_l2_dist(perm):
         perm = np.array(perm)
-        return np.sum((np.abs(predicted_W[perm]) - np.abs(true_W)) ** 2)
+        return np.sum((np.abs(predicted_W[perm], dtype=float) - np.abs(true_W)) ** 2)
 
     def pair(perm):
         return perm, perm_squared_l2_dist(perm)
-- 
2.43.0

