From f01425275355b7962742a5804fc40e9155df9ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 01/59] fix: size the coalition buffers by the longest path
 over all trees, not of the last tree only

---
 acv_explainers/base_agnostree.py | 2 +-
 acv_explainers/base_tree.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 7707083..9ce2e34 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -96,6 +96,7 @@ class BaseAgnosTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -122,7 +123,6 @@ class BaseAgnosTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 # self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 9980aea..50e5314 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -557,6 +557,7 @@ class BaseTree:
             self.leaf_idx_trees = []
             self.leaves_nb = []
             self.scalings = []
+            self.max_var = []
             for i in tqdm(range(num_trees)):
                 self.scalings.append(self.trees[i].scaling)
                 self.children_left[i, :len(self.trees[i].children_left)] = self.trees[i].children_left
@@ -583,7 +584,6 @@ class BaseTree:
 
                 self.partition_leaves = []
                 self.node_idx = []
-                self.max_var = []
                 self.data_leaves = []
                 for leaf_id in self.leaf_idx:
                     node_id = [-1]
-- 
2.43.0


From fbf78b3ace76e449661ecca84fec29ff33a69d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 02/59] fix: do not use leaf probabilities cached for one
 grouping to explain another

---
 acv_explainers/acv_tree.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index e67a762..6475466 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -28,13 +28,17 @@ class ACVTree(BaseTree):
             shapley_values (numpy.ndarray): The Shapley Values of each sample (# samples X # features X # model's output)
         """
         X = check_array(X, dtype=[np.double])
-        if not self.cache:
+        if not self.cache or not self._is_cached_grouping(C):
             return cyext_acv.shap_values_leaves_pa(X, self.data, self.values,
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.max_var,
                                                    self.node_idx_trees, C, num_threads)
         return self.shap_values_cache(X, C)
 
+    def _is_cached_grouping(self, C):
+        # the cached leaf probabilities are those of the grouped variables given at construction
+        return [list(c) for c in C] == [list(c) for c in self.C]
+
     def shap_values_acv_adap(self, X, S_star, N_star, size, C=[[]], num_threads=10):
         """
         Estimate the **Active** Shapley Values for a set of samples given **the corresponding** S_star and N_star of
@@ -380,6 +384,8 @@ class ACVTree(BaseTree):
 
         """
         X = check_array(X, dtype=[np.double])
+        if not self._is_cached_grouping(C):
+            return self.shap_values(X, C)
         return cyext_acv_cache.shap_values_leaves_cache(np.array(X, dtype=np.float), self.data, self.values,
                                                         self.partition_leaves_trees,
                                                         self.leaf_idx_trees, self.leaves_nb, self.lm, self.lm_s,
@@ -392,6 +398,8 @@ class ACVTree(BaseTree):
                 Same as **shap_values** but use cached values and no parallelism
         """
         X = check_array(X, dtype=[np.double])
+        if not self._is_cached_grouping(C):
+            return self.shap_values_nopa(X, C)
         return cyext_acv_nopa.shap_values_leaves_cache_nopa(np.array(X, dtype=np.float), self.data, self.values,
                                                             self.partition_leaves_trees,
                                                             self.leaf_idx_trees, self.leaves_nb, self.lm, self.lm_s,
@@ -662,7 +670,7 @@ class ACVTree(BaseTree):
                                                                        self.node_idx_trees, C, num_threads)
 
     def shap_values_normalized(self, X, C=[[]], num_threads=10):
-        if not self.cache_normalized:
+        if not self.cache_normalized or not self._is_cached_grouping(C):
             return cyext_acv.shap_values_leaves_normalized(np.array(X, dtype=np.float), self.data, self.values,
                                                            self.partition_leaves_trees,
                                                            self.leaf_idx_trees, self.leaves_nb, self.max_var,
-- 
2.43.0


From 9e77875345e59512bd7098cd88cf75b5caeb0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 03/59] fix: an empty region of the background sample has
 probability 0 in the Python Shapley values, not NaN

---
 acv_explainers/py_acv.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 402b7c8..a73cd01 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -79,12 +79,12 @@ def shap_values_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves_nb,
                 lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                                        for s in chain_l(S)], axis=0))
 
-                p_si = (csi * lm) / lm_si
+                p_si = (csi * lm) / lm_si if lm_si != 0 else 0 * csi
 
                 if len(S) == 0:
                     p_s = lm / data.shape[0]
                 else:
-                    p_s = (cs * lm) / lm_s
+                    p_s = (cs * lm) / lm_s if lm_s != 0 else 0 * cs
                 for j in convert_list(i):
                     phi[:, j, :] += (comb(d - 1, len(S), exact=True) ** (-1) + coef) * (p_si - p_s)[:, None] * v[
                                                                                                                    leaf_id][
@@ -174,12 +174,12 @@ def shap_values_leaves_v2(x, partition_leaves, data, node_idx, leaf_idx, leaves_
                 lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                                        for s in S], axis=0))
 
-                p_si = (csi * lm) / lm_si
+                p_si = (csi * lm) / lm_si if lm_si != 0 else 0 * csi
 
                 if len(S) == 0:
                     p_s = lm / data.shape[0]
                 else:
-                    p_s = (cs * lm) / lm_s
+                    p_s = (cs * lm) / lm_s if lm_s != 0 else 0 * cs
                 for j in convert_list(i):
                     phi[:, j, :] += (comb(d - 1, S_size, exact=True) ** (-1) + coef) * (p_si - p_s)[:, None] * v[
                                                                                                                    leaf_id][
@@ -244,7 +244,7 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                 lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in N_star], axis=0))
 
-                p_si = comp_si * lm / lm_si
+                p_si = comp_si * lm / lm_si if lm_si != 0 else 0 * comp_si
                 p_s = lm / data.shape[0]
                 for a in convert_list(i):
                     phi[:, a] += ((p_si - p_s)[:, None] * v[leaf_id][None, :])
@@ -277,8 +277,8 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                 lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in chain_l(S) + N_star], axis=0))
 
-                p_si = comp_si * lm / lm_si
-                p_s = comp_s * lm / lm_s
+                p_si = comp_si * lm / lm_si if lm_si != 0 else 0 * comp_si
+                p_s = comp_s * lm / lm_s if lm_s != 0 else 0 * comp_s
                 if len(S) != 0:
                     for a in convert_list(i):
                         phi[:, a] += (
-- 
2.43.0


From 4bbeb36b1f65ef45fa9290a31a6bde8fd6d82a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 04/59] fix: keep the ungrouped variables when py_shap_valuesv2
 is given groups

---
 acv_explainers/py_acv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index a73cd01..68b9e0f 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -135,7 +135,7 @@ def shap_values_leaves_v2(x, partition_leaves, data, node_idx, leaf_idx, leaves_
         C_b = C.copy()
         if C[0] != []:
             for va in node_id:
-                if va in remove_va:
+                if [va] in remove_va:
                     node_id_v2 += [[va]]
                 else:
                     for ci in C_b:
-- 
2.43.0


From 76dc801bb51ff90c17f2543b0492dc949f47c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 05/59] fix: accept a group of a single variable in the Python
 Shapley values

---
 acv_explainers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 8961492..7eeeae9 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -312,7 +312,7 @@ def chain_l(l):
         for it in l:
             if type(it) != list:
                 chain.append(it)
-            elif type(it) == list and len(it) > 1:
+            elif type(it) == list and len(it) > 0:
                 chain = chain + it
             else:
                 raise ValueError('problem...')
-- 
2.43.0


From 2537d16c2236c237c6b5213bc088849d524ca4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 06/59] fix: a leaf is open on its lower bound everywhere, as
 in the source models

---
 acv_explainers/cyext_acv/cyext_acv.pyx       | 94 ++++++++++----------
 acv_explainers/cyext_acv/cyext_acv_cache.pyx |  8 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 72 +++++++--------
 acv_explainers/py_acv.py                     |  6 +-
 acv_explainers/utils.py                      |  8 +-
 acv_explainers/utils_exp.py                  | 10 +--
 acv_explainers/utils_sdp.py                  | 40 ++++-----
 7 files changed, 119 insertions(+), 119 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index da190b7..d4add8c 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -61,7 +61,7 @@ cpdef compute_exp(double[:, :] X, long[:] S, double[:, :] data, double[:, :, :]
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -74,7 +74,7 @@ cpdef compute_exp(double[:, :] X, long[:] S, double[:, :] data, double[:, :, :]
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -128,7 +128,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -141,7 +141,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -271,7 +271,7 @@ cpdef compute_sdp_clf_cat(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -290,7 +290,7 @@ cpdef compute_sdp_clf_cat(double[:, :] X, long[:] fX,
                     lm = 0
                     a_it = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     if a_it == m:
                         lm = 1
@@ -382,7 +382,7 @@ cpdef compute_sdp_clf(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -400,10 +400,10 @@ cpdef compute_sdp_clf(double[:, :] X, long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -517,10 +517,10 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -532,7 +532,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     for i in prange(N, nogil=True, num_threads=num_threads):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -582,10 +582,10 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == m:
@@ -597,7 +597,7 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         for i in prange(N, nogil=True, num_threads=num_threads):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -719,10 +719,10 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -731,7 +731,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                     for i in prange(N, nogil=True):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -788,7 +788,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
 
                             if a_it == m:
@@ -797,7 +797,7 @@ cpdef compute_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                         for i in prange(N, nogil=True):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -1085,10 +1085,10 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(m):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == m:
@@ -1100,7 +1100,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             for i in prange(N, nogil=True):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -1150,10 +1150,10 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(m):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == m:
@@ -1165,7 +1165,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(N, nogil=True):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -2061,7 +2061,7 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
             for i in prange(N, nogil=True, num_threads=num_threads):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -2079,10 +2079,10 @@ cdef compute_sdp_swing(const double[:, :] X, const long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -2298,7 +2298,7 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                 csm = 0
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -2338,10 +2338,10 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     lm_s_m = 0
 
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -2737,10 +2737,10 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(data.shape[1]):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == data.shape[1]:
@@ -2752,7 +2752,7 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                             for i in prange(N, nogil=True, num_threads=num_threads):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -2798,10 +2798,10 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(data.shape[1]):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == data.shape[1]:
@@ -2813,7 +2813,7 @@ cpdef global_sdp_reg_cpp_pa_coal(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(N, nogil=True, num_threads=num_threads):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -2972,7 +2972,7 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -2989,10 +2989,10 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -3170,7 +3170,7 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -3187,10 +3187,10 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -3894,7 +3894,7 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -3911,10 +3911,10 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index f9f46ce..30791b1 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -568,14 +568,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -597,14 +597,14 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 58643f6..0bba6b3 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -55,7 +55,7 @@ cpdef compute_exp_nopa(double[:, :] X, long[:] S, double[:, :] data, double[:, :
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -68,7 +68,7 @@ cpdef compute_exp_nopa(double[:, :] X, long[:] S, double[:, :] data, double[:, :
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -122,7 +122,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 it = 0
                 it_s = 0
                 for s in range(m):
-                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                    if((data[i, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[i, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                         it = it + 1
                 for s in range(S_size):
                     if((data[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
@@ -135,7 +135,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -265,7 +265,7 @@ cpdef compute_sdp_clf_cat_nopa(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -284,7 +284,7 @@ cpdef compute_sdp_clf_cat_nopa(double[:, :] X, long[:] fX,
                     lm = 0
                     a_it = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     if a_it == m:
                         lm = 1
@@ -376,7 +376,7 @@ cpdef compute_sdp_clf_nopa(double[:, :] X, long[:] fX,
             for i in range(N):
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -394,10 +394,10 @@ cpdef compute_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     lm = 0
                     lm_s = 0
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
@@ -511,10 +511,10 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -526,7 +526,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -576,10 +576,10 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == m:
@@ -591,7 +591,7 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         for i in range(N):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -713,10 +713,10 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                         a_it = 0
                         b_it = 0
                         for s in range(m):
-                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                            if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                 a_it = a_it + 1
                         for s in range(S_size):
-                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                            if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                 b_it = b_it + 1
 
                         if a_it == m:
@@ -725,7 +725,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0])):
+                            if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -782,7 +782,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                             a_it = 0
                             b_it = 0
                             for s in range(m):
-                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                     a_it = a_it + 1
 
                             if a_it == m:
@@ -791,7 +791,7 @@ cpdef compute_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                         for i in range(N):
                             o_all = 0
                             for s in range(S_size):
-                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] < leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] < leaf_part_l[S[s], 0])):
+                                if ((X[i, S[s]] > leaf_part[S[s], 1]) or (X[i, S[s]] <= leaf_part[S[s], 0]) or (X[i, S[s]] > leaf_part_l[S[s], 1]) or (X[i, S[s]] <= leaf_part_l[S[s], 0])):
                                     o_all = o_all + 1
                             if o_all > 0:
                                 continue
@@ -1079,10 +1079,10 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 a_it = 0
                                 b_it = 0
                                 for s in range(m):
-                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0])):
+                                    if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
-                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0])):
+                                    if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
                                 if a_it == m:
@@ -1094,7 +1094,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             for i in range(N):
                                 o_all = 0
                                 for s in range(S_size):
-                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0])):
+                                    if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0])):
                                         o_all = o_all + 1
                                 if o_all > 0:
                                     continue
@@ -1144,10 +1144,10 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                     a_it = 0
                                     b_it = 0
                                     for s in range(m):
-                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] >= leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] >= leaf_part_l[s, 0])):
+                                        if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
-                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] >= leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] >= leaf_part_l[S[s], 0])):
+                                        if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
                                     if a_it == m:
@@ -1159,7 +1159,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 for i in range(N):
                                     o_all = 0
                                     for s in range(S_size):
-                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] < leaf_part_l[S[s], 0])):
+                                        if ((X[R_buf[i], S[s]] > leaf_part[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part[S[s], 0]) or (X[R_buf[i], S[s]] > leaf_part_l[S[s], 1]) or (X[R_buf[i], S[s]] <= leaf_part_l[S[s], 0])):
                                             o_all = o_all + 1
                                     if o_all > 0:
                                         continue
@@ -1399,7 +1399,7 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     for i in range(N):
                         o_all = 0
                         for s in range(S_size):
-                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                            if ((X[R_buf[i], S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[R_buf[i], S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                 o_all = o_all + 1
                         if o_all > 0:
                             continue
@@ -1416,10 +1416,10 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                             lm = 0
                             lm_s = 0
                             for s in range(data.shape[1]):
-                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                                if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                                     a_it = a_it + 1
                             for s in range(S_size):
-                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                                if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                                     b_it = b_it + 1
 
                             if a_it == data.shape[1]:
@@ -2991,14 +2991,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -3020,14 +3020,14 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                 o_all = 0
 
                                 for s in range(S_size):
-                                    if ((X[i, S[va, counter, leaf_numb, s]] < partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] >= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
+                                    if ((X[i, S[va, counter, leaf_numb, s]] <= partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 1]) * (X[i, S[va, counter, leaf_numb, s]] > partition_leaves_trees[b, leaf_n, S[va, counter, leaf_numb, s], 0])):
                                         o_all = o_all + 1
 
                                 if o_all == S_size:
                                     cs_n = 1
                                     nv_bool = 0
                                     for nv in range(va_id[va].size()):
-                                        if ((X[i, va_id[va][nv]] >= partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] < partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
+                                        if ((X[i, va_id[va][nv]] > partition_leaves_trees[b, leaf_n, va_id[va][nv], 1]) or (X[i, va_id[va][nv]] <= partition_leaves_trees[b, leaf_n, va_id[va][nv], 0])):
                                             nv_bool = nv_bool + 1
                                             continue
 
@@ -3271,7 +3271,7 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                 csm = 0
                 o_all = 0
                 for s in range(S_size):
-                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] < partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                    if ((X[i, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 1]) or (X[i, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 0])):
                         o_all = o_all + 1
                 if o_all > 0:
                     continue
@@ -3311,10 +3311,10 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     lm_s_m = 0
 
                     for s in range(m):
-                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] >= partition_leaves_trees[b, leaf_numb, s, 0])):
+                        if ((data[j, s] <= partition_leaves_trees[b, leaf_numb, s, 1]) and (data[j, s] > partition_leaves_trees[b, leaf_numb, s, 0])):
                             a_it = a_it + 1
                     for s in range(S_size):
-                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] >= partition_leaves_trees[b, leaf_numb, S[s], 0])):
+                        if ((data[j, S[s]] <= partition_leaves_trees[b, leaf_numb, S[s], 1]) and (data[j, S[s]] > partition_leaves_trees[b, leaf_numb, S[s], 0])):
                             b_it = b_it + 1
 
                     if a_it == m:
diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 68b9e0f..2b533de 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -238,7 +238,7 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
         for i in va_id:
 
             if not set(convert_list(i)).issubset(node_id):
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in N_star], axis=0)
 
                 lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
@@ -263,9 +263,9 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
                         Sm += [c]
             for S in powerset(Sm):
 
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                    for s in chain_l(S) + convert_list(i) + N_star], axis=0)
-                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] >= partition_leaf[s, 0])
+                comp_s = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
                                   for s in chain_l(S) + N_star], axis=0)
 
                 coef = 0
diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 7eeeae9..e33c206 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -597,19 +597,19 @@ def explore_partition(i, x, children_left, children_right, features, thresholds,
         partition_leaves = np.squeeze(np.array(partition_leaves))
 
         section_x = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0)
 
         section_x_bar = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S_bar], axis=0)
 
         section_up = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0) * up_tx
 
         section_down = np.prod(
-            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] >= partition_leaves[s, 0]) for s in
+            [(data[:, s] <= partition_leaves[s, 1]) * (data[:, s] > partition_leaves[s, 0]) for s in
              S], axis=0) * down_tx
 
         prob_all = section_x * section_x_bar
diff --git a/acv_explainers/utils_exp.py b/acv_explainers/utils_exp.py
index 062d7f8..c763b6f 100644
--- a/acv_explainers/utils_exp.py
+++ b/acv_explainers/utils_exp.py
@@ -18,14 +18,14 @@ def compute_exp(X, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                            S], axis=0)
 
             p_ss = np.sum(p_s)
@@ -52,13 +52,13 @@ def compute_exp_cat(X, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
             value = model.values[b, leaf_id]
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
             for i, x in enumerate(X):
                 if leaf_bool[i] == 0:
diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index 822912d..cec2b4d 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -28,16 +28,16 @@ def compute_sdp_reg(X, tX, model, S, data):
                     leaf_id = model.leaf_idx_trees[b, leaf_numb]
                     value = model.values[b, leaf_id]
 
-                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S],
+                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
                                         axis=0)
 
                     if np.sum(leaf_bool) == 0:
                         continue
 
-                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index],
+                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index],
                                  axis=0)
 
-                    p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+                    p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                                    S], axis=0)
 
                     for i, x in enumerate(X):
@@ -77,19 +77,19 @@ def compute_sdp_reg(X, tX, model, S, data):
                         leaf_part_l = model.partition_leaves_trees[l][leaf_numb_l]
                         value_l = model.values[l, leaf_id_l]
 
-                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] >= leaf_part_b[s, 0]) *
-                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] >= leaf_part_l[s, 0])
+                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] > leaf_part_b[s, 0]) *
+                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] > leaf_part_l[s, 0])
                                              for s in S], axis=0)
 
                         if np.sum(leaf_bool) == 0.:
                             continue
 
-                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                       for s in index], axis=0)
 
-                        p_s = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                       (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        p_s = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                       (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                        for s in S], axis=0)
 
                         for i, x in enumerate(X):
@@ -146,13 +146,13 @@ def compute_sdp_reg_cat(X, tX, model, S, data):
                     leaf_id = model.leaf_idx_trees[b, leaf_numb]
                     value = model.values[b, leaf_id]
 
-                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S],
+                    leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
                                         axis=0)
 
                     if np.sum(leaf_bool) == 0:
                         continue
 
-                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index],
+                    lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index],
                                  axis=0)
 
                     for i, x in enumerate(X):
@@ -193,15 +193,15 @@ def compute_sdp_reg_cat(X, tX, model, S, data):
                         leaf_part_l = model.partition_leaves_trees[l][leaf_numb_l]
                         value_l = model.values[l, leaf_id_l]
 
-                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] >= leaf_part_b[s, 0]) *
-                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] >= leaf_part_l[s, 0])
+                        leaf_bool = np.prod([(X[:, s] <= leaf_part_b[s, 1]) * (X[:, s] > leaf_part_b[s, 0]) *
+                                             (X[:, s] <= leaf_part_l[s, 1]) * (X[:, s] > leaf_part_l[s, 0])
                                              for s in S], axis=0)
 
                         if np.sum(leaf_bool) == 0.:
                             continue
 
-                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] >= leaf_part_b[s, 0]) *
-                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] >= leaf_part_l[s, 0])
+                        lm = np.prod([(data[:, s] <= leaf_part_b[s, 1]) * (data[:, s] > leaf_part_b[s, 0]) *
+                                      (data[:, s] <= leaf_part_l[s, 1]) * (data[:, s] > leaf_part_l[s, 0])
                                       for s in index], axis=0)
 
                         for i, x in enumerate(X):
@@ -264,12 +264,12 @@ def compute_sdp_clf_cat(X, tX, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
             for i, x in enumerate(X):
                 if leaf_bool[i] == 0:
@@ -328,13 +328,13 @@ def compute_sdp_clf(X, tX, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] >= leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
-            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in index], axis=0)
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] >= leaf_part[s, 0]) for s in
+            lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
+            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
                            S], axis=0)
 
             for i, x in enumerate(X):
-- 
2.43.0


From f2460a76c8979561031d526c62517817f72859fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 07/59] fix: count the trees of every class in the tree limit
 of a multi-class XGBClassifier

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 50e5314..edf9d10 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -345,6 +345,8 @@ class BaseTree:
             self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+                if self.tree_limit is not None:
+                    self.tree_limit *= self.num_stacked_models  # best_ntree_limit counts one tree per boosting round
             if self.model_output == "predict_proba":
                 if self.num_stacked_models == 1:
                     self.model_output = "probability_doubled"  # with predict_proba we need to double the outputs to match
-- 
2.43.0


From 0122a946d2ee51d86357de16402228428ad88a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 08/59] fix: do not read the tree at the missing children of a
 leaf in the projected forests

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 84 ++++++++++++++++++++++++++
 1 file changed, 84 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index d4add8c..55b5193 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4268,6 +4268,12 @@ cdef double single_compute_exp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5160,6 +5166,12 @@ cdef double single_compute_sdp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5266,6 +5278,12 @@ cdef double single_compute_sdp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5432,6 +5450,12 @@ cdef double single_compute_ddp_rule(double[:] & x, double & y_x,  double[:, :] &
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5538,6 +5562,12 @@ cdef double single_compute_ddp_rule_weights(double[:] & x, double & y_x,  double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5674,6 +5704,12 @@ cdef double single_compute_ddp_cond_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5829,6 +5865,12 @@ cdef double single_compute_sdp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -5923,6 +5965,12 @@ cdef double single_compute_ddp_rf(double[:] & x, double & y_x,  double[:, :] & d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -6509,6 +6557,12 @@ cdef double single_compute_ddp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
@@ -6805,6 +6859,12 @@ cdef double single_compute_cdp_rule(double[:] & x, double & y_x, double & down,
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -6912,6 +6972,12 @@ cdef double single_compute_cdp_cond_rule_weights(double[:] & x, double & y_x, do
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7066,6 +7132,12 @@ cdef double single_compute_cdp_rf(double[:] & x, double & y_x,  double & down, d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7317,6 +7389,12 @@ cdef double single_compute_cdp_rule_weights(double[:] & x, double & y_x, double
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     if x[features[b, it_node]] <= thresholds[b, it_node]:
                         nodes_child.insert(children_left[b, it_node])
@@ -7452,6 +7530,12 @@ cdef double single_compute_cdp_intv_rule_weights(double[:] & x, double & y_x,  d
             it_point = nodes_level.begin()
             while(it_point != nodes_level.end()):
                 it_node = deref(it_point)
+                if it_node < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    inc(it_point)
+                    continue
+
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, it_node]) != S.end():
                     nodes_child.insert(children_left[b, it_node])
                     nodes_child.insert(children_right[b, it_node])
-- 
2.43.0


From 4c9766985c1c33453e74e2c17079e6438fc4f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 09/59] fix: explain a forest of a single column

---
 acv_explainers/base_agnostree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/base_agnostree.py b/acv_explainers/base_agnostree.py
index 9ce2e34..0bf95bc 100644
--- a/acv_explainers/base_agnostree.py
+++ b/acv_explainers/base_agnostree.py
@@ -130,7 +130,7 @@ class BaseAgnosTree:
                     _ = get_partition(leaf_id, partition_leaf, node_id, self.trees[i].children_left,
                                       self.trees[i].children_right, self.trees[i].features, self.trees[i].thresholds)
 
-                    self.partition_leaves.append(np.squeeze(np.array(partition_leaf)))
+                    self.partition_leaves.append(np.squeeze(np.array(partition_leaf), axis=1))
                     self.node_idx.append(list(set(node_id[1:])))
                     self.max_var.append(len(self.node_idx[-1]))
                     # self.data_leaves.append(np.array([(self.data[:, s] <= self.partition_leaves[-1][s, 1]) * \
-- 
2.43.0


From aa5dc40474800d02deefa65fb2dd9b70d0f114a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 10/59] fix: clear the end of an explanation when a shorter one
 replaces it

With groups of different sizes a coalition with fewer columns can replace a longer one; the
row of the returned matrix kept the columns of the longer one beyond the reported size.
---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 22 +++++++++++++++++++++
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx |  6 ++++++
 acv_explainers/utils_sdp.py                 |  4 ++++
 3 files changed, 32 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 55b5193..abfe1eb 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -936,6 +936,8 @@ cpdef global_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1241,6 +1243,8 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -3043,6 +3047,8 @@ cpdef global_sdp_clf(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -3228,6 +3234,8 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -3965,6 +3973,8 @@ cpdef global_sdp_clf_approx(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -4210,6 +4220,8 @@ cpdef global_sdp_rf_v0(double[:, :] X, double[::1] y_X,  double[:, :] data, doub
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6161,6 +6173,8 @@ cpdef global_ddp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6309,6 +6323,8 @@ cpdef global_sdp_rf(double[:, :] X, double[::1] y_X,  double[:, :] data, double[
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -6802,6 +6818,8 @@ cpdef global_ddp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -7331,6 +7349,8 @@ cpdef global_cdp_rf(double[:, :] X, double[::1] y_X, double[::1] DOWN, double[::
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -7775,6 +7795,8 @@ cpdef global_cdp_intv(double[:, :] X, double[::1] y_X,  double[:, :] data, doubl
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 0bba6b3..c79d897 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -930,6 +930,8 @@ cpdef global_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1235,6 +1237,8 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -1470,6 +1474,8 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index cec2b4d..2365689 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -459,6 +459,8 @@ def importance_msdp_clf_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
@@ -578,6 +580,8 @@ def importance_msdp_reg_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
                     len_s_star[R_buf[i]] = S_size
                     for s in range(S_size):
                         s_star[R_buf[i], s] = S[s]
+                    for s in range(S_size, X.shape[1]): # drop the end of a longer coalition found before
+                        s_star[R_buf[i], s] = -1
 
                 if S_size == X.shape[1]:
                     sdp[R_buf[i]] = 1
-- 
2.43.0


From ab4945c0c507729cc81717b3b930db42b9e8d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:19 +0000
Subject: [PATCH 11/59] fix: return the probabilities of every sample from
 sufficient_cxpl_rf

The placeholder was cut from the list of samples instead of from the list of every sample,
so the first sample was lost and the others kept the placeholder.
---
 acv_explainers/acv_agnosticX.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index ccadcad..e1ab738 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -1215,7 +1215,8 @@ class ACXplainer:
                                             pi_level, minimal, stop, search_space[:10])
 
         c_expl = [sufficient_coal[1:] for sufficient_coal in c_expl]
-        return c_expl, cdp_expl[1:], cdp_global
+        cdp_expl = [sdp_ind[1:] for sdp_ind in cdp_expl]
+        return c_expl, cdp_expl, cdp_global
 
     def compute_exp_rf(self, X, y, data, y_data, S, min_node_size=5, t=None):
         """
-- 
2.43.0


From 8383fc50a75aab118bd4b4bebc9aa53079d993eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:48 +0000
Subject: [PATCH 12/59] fix: extend a rule by a neighbour only when the union
 is a rectangle

The test of the other axes negated only its first half, and a neighbour that touches the
rule at an edge of several axes was merged as well, so the extended rule covered
observations below the level.
---
 acv_explainers/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index e33c206..021f24a 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -938,13 +938,9 @@ def find_nbor(rec_a, rec_b, S):
 
 
 def extend_rec(rec_a, rec_b, S, axs, dim):
-    a = 0
-    for k in S:
-        if k not in axs:
-            if not rec_b[k, 0] <= rec_a[k, 0] and rec_b[k, 1] >= rec_a[k, 1]:
-                a += 1
-    if a == 0:
-        for i, k in enumerate(axs):
+    for i, k in enumerate(axs):
+        # the union is a rectangle only if rec_b covers rec_a along all the other axes
+        if all(rec_b[l, 0] <= rec_a[l, 0] and rec_b[l, 1] >= rec_a[l, 1] for l in S if l != k):
             rec_a[k, dim[i]] = rec_b[k, dim[i]]
     return rec_a
 
-- 
2.43.0


From 41f984dce65e89701f8c0fb8b621f072660d8ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:24 +0000
Subject: [PATCH 13/59] fix: search maximal rules with a single column

np.squeeze dropped the axis of the columns as well.
---
 acv_explainers/utils.py    | 8 ++++----
 acv_explainers/utils_cr.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 021f24a..019072d 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -2119,9 +2119,9 @@ def rules_simulated_annealing(value_function, rule, left_by_var, right_by_var, x
     max_values = [np.max(x_train[:, i]) for i in range(x_train.shape[1])]
     min_values = [np.min(x_train[:, i]) for i in range(x_train.shape[1])]
 
-    best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)
-    best_eval = value_function(best, max_values, min_values)[0]
-    curr, curr_eval = np.squeeze(best[0]), best_eval
+    best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)[0]
+    best_eval = value_function([best], max_values, min_values)[0]
+    curr, curr_eval = best, best_eval
 
     move = 0
     for i in range(max_iter):
@@ -2166,7 +2166,7 @@ def rules_by_annealing(value_function, rules, rules_data, sdp_all, x_train, pi_l
                                                     bad_sample,
                                                     p_best, n_try,
                                                     batch, max_iter, temp, max_iter_convergence)
-        sr.append(np.squeeze(best))
+        sr.append(best)
         sr_eval.append(best_eval)
     return np.array(sr), sr_eval
 
diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index e90cbca..b8cb79c 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -726,9 +726,9 @@ def rules_simulated_annealing(value_function, rule, left_by_var, right_by_var, x
     max_values = [np.max(x_train[:, i]) for i in range(x_train.shape[1])]
     min_values = [np.min(x_train[:, i]) for i in range(x_train.shape[1])]
 
-    best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)
-    best_eval = value_function(best, max_values, min_values)[0]
-    curr, curr_eval = np.squeeze(best[0]), best_eval
+    best = generate_rules(rule, left_by_var, right_by_var, x_train, bad_sample, p_best, n_try, n_gen=1)[0]
+    best_eval = value_function([best], max_values, min_values)[0]
+    curr, curr_eval = best, best_eval
 
     move = 0
     for i in range(max_iter):
-- 
2.43.0


From 63794ee01d819763d6fae7b71d7339be913bf86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:14 +0000
Subject: [PATCH 14/59] fix: use the model that is given to the counterfactual
 rules

The argument was dropped, so the accuracy on the source model was never computed.
---
 acv_explainers/counterfactual_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 3853788..10b6741 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -4,7 +4,7 @@ import acv_explainers
 class CR:
 
     def __init__(self, acv_explainer, x_train, x_test, y_train, y_test, columns_name, model=None):
-        self.model = None
+        self.model = model
         self.columns_name = columns_name
         self.acv_explainer = acv_explainer
         self.x_train = x_train
-- 
2.43.0


From de63f93e2e226df82117f21c64d68f62dea649a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:04 +0000
Subject: [PATCH 15/59] fix: sample regional counterfactuals without sampling
 local ones first

---
 acv_explainers/counterfactual_rules.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 10b6741..89ea132 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -16,7 +16,7 @@ class CR:
         self.ddp_local, self.w_local = None, None
         self.counterfactuals_samples_local, self.counterfactuals_samples_sdp_local, \
         self.counterfactuals_samples_w_local = None, None, None
-        self.isolation = None, None
+        self.isolation = None
         self.dist_local = None
         self.score_local = None
         self.errs_local = None
@@ -208,6 +208,9 @@ class CR:
         down = self.down_up[:, 0]
         up = self.down_up[:, 1]
         print('### Sampling using the regional counterfactual rules')
+        if self.isolation is None:
+            self.isolation = IsolationForest()
+            self.isolation.fit(self.x_train)
         outlier_score = lambda x: self.isolation.decision_function(x)
         self.dist_regional = []
         self.score_regional = []
@@ -247,6 +250,9 @@ class CR:
         up = self.down_up[:, 1]
 
         print('### Sampling using the regional counterfactual rules')
+        if self.isolation is None:
+            self.isolation = IsolationForest()
+            self.isolation.fit(self.x_train)
         outlier_score = lambda x: self.isolation.decision_function(x)
 
         self.dist_regional = []
-- 
2.43.0


From 76ad56ef266c3518a59f3d9c4a63e27a384a0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:04 +0000
Subject: [PATCH 16/59] fix: pass the level and the search budget to the local
 counterfactual rules of a regression

---
 acv_explainers/counterfactual_rules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 89ea132..88d7ec5 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -94,7 +94,11 @@ class CR:
                                                                                      self.x_train, self.y_train,
                                                                                      self.w_local,
                                                                                      acc_level=acc_level,
-                                                                                     pi_level=acc_level)
+                                                                                     pi_level=pi_level,
+                                                                                     p_best=p_best, n_try=n_try,
+                                                                                     batch=batch, max_iter=max_iter,
+                                                                                     temp=temp,
+                                                                                     max_iter_convergence=max_iter_convergence)
 
     def run_sampling_local_counterfactuals(self, x, y_target=None, down=None, up=None, batch=1000, max_iter=1000, temp=0.5):
         if y_target is None:
-- 
2.43.0


From 6d793154af7d7e08e5dafd171f40c5e7e2d58098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:04 +0000
Subject: [PATCH 17/59] fix: report the probability of the regional divergent
 set, not of its complement

---
 acv_explainers/counterfactual_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 88d7ec5..98d8f3d 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -181,7 +181,7 @@ class CR:
                                                                                          self.x_train, self.y_train,
                                                                                          cond=self.rules,
                                                                                          t=self.down_up,
-                                                                                         S=self.S_bar_set_regional)
+                                                                                         S=self.S_star_regional)
 
     def run_regional_counterfactual_rules(self, acc_level=0.8, pi_level=0.8,  p_best=0.85, n_try=100,
                                   batch=100, max_iter=100, temp=1, max_iter_convergence=100):
-- 
2.43.0


From 2a60286c1e55c377aaf3a3b6000431c06c3ccac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:04 +0000
Subject: [PATCH 18/59] fix: keep the larger of two nested counterfactual rules

---
 acv_explainers/utils_cr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/utils_cr.py b/acv_explainers/utils_cr.py
index b8cb79c..5bb9a2a 100644
--- a/acv_explainers/utils_cr.py
+++ b/acv_explainers/utils_cr.py
@@ -802,7 +802,9 @@ def remove_in_wsdp(ra, sa, wa):
                 # ra[i] = ra[j]
                 # sa[i] = sa[j]
                 # wa[i] = wa[j]
-                remove_list.append(j)
+                if j < i or not np.array_equal(ra[i], ra[j]):
+                    remove_list.append(i)
+                    break
     ra_b = np.delete(ra_b, remove_list, axis=0)
     sa_b = np.delete(sa_b, remove_list, axis=0)
     wa_b = np.delete(wa_b, remove_list, axis=0)
-- 
2.43.0


From 184c68ee217f3e6586b834646ba9683d0d59e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:04 +0000
Subject: [PATCH 19/59] fix: sample the counterfactuals of all test points from
 whole rules

---
 acv_explainers/counterfactual_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/counterfactual_rules.py b/acv_explainers/counterfactual_rules.py
index 98d8f3d..fea50f2 100644
--- a/acv_explainers/counterfactual_rules.py
+++ b/acv_explainers/counterfactual_rules.py
@@ -283,7 +283,7 @@ class CR:
             if len(self.counterfactuals_samples_regional[best_id]) != 0:
                 a, sco = simulated_annealing(outlier_score, xi, self.S_star_regional[best_id], self.x_train,
                                              self.counterfactuals_samples_regional[best_id][
-                                                 np.argmax(self.counterfactuals_samples_sdp_regional[best_id])][0],
+                                                 np.argmax(self.counterfactuals_samples_sdp_regional[best_id])],
                                              batch, max_iter, temp)
                 self.dist_regional.append(np.squeeze(a))
                 self.score_regional.append(sco)
@@ -292,7 +292,7 @@ class CR:
                         self.dist_regional[-1].reshape(1, -1)) != self.acv_explainer.predict(xi.reshape(1, -1)))
                 else:
                     self.errs_regional.append(
-                        down[i] <= self.acv_explainer.predict(self.dist_regional[-1].reshape(1, -1)) <= up[i])
+                        down[best_id] <= self.acv_explainer.predict(self.dist_regional[-1].reshape(1, -1)) <= up[best_id])
 
                 if self.model != None:
                     self.errs_regional_original.append(self.model.predict(
-- 
2.43.0


From 1587c2496e80a674fc14e84efcac5463f4cf81b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:40 +0000
Subject: [PATCH 20/59] fix: predict with the best global rule among those that
 have the required coverage

---
 acv_explainers/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index 019072d..addbf94 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -975,7 +975,7 @@ def global_rules_model(x_exp, rules, rules_output, rules_coverage, rules_acc, mi
             rule = rules[i]
 
             x_in = np.prod([(x[s] <= rule[s, 1]) * (x[s] >= rule[s, 0]) for s in S[i]], axis=0).astype(bool)
-            if x_in:
+            if x_in and rules_coverage[i] > 0 and rules_coverage[i] >= min_cov:
                 y_out.append(rules_output[i])
                 y_coverage.append(rules_coverage[i])
                 y_weights.append(rules_acc[i])
@@ -1009,7 +1009,7 @@ def global_rules_model_reg(x_exp, rules, rules_output, rules_coverage, rules_acc
             rule = rules[i]
 
             x_in = np.prod([(x[s] <= rule[s, 1]) * (x[s] >= rule[s, 0]) for s in S[i]], axis=0).astype(bool)
-            if x_in:
+            if x_in and rules_coverage[i] > 0 and rules_coverage[i] >= min_cov:
                 y_out.append(rules_output[i])
                 y_coverage.append(rules_coverage[i])
                 y_weights.append(rules_acc[i])
-- 
2.43.0


From 2485add7b6abe220f6b3b8610b095422a62f4035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 21/59] fix: a leaf without background rows in its region has
 probability 0 in the active Shapley values, not NaN

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 12 ++++++------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index abfe1eb..e9c67bb 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1924,7 +1924,7 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star[va, leaf_numb]
+                        p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi_n[leaf_numb, i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -2000,8 +2000,8 @@ cpdef shap_values_acv_leaves(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                        p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                        p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -3473,7 +3473,7 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -3549,8 +3549,8 @@ cpdef single_shap_values_acv_leaves(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index c79d897..16ad991 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1860,7 +1860,7 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                             csi = 1
 
                         p_s = lm/data.shape[0]
-                        p_si = (csi * lm)/lm_star
+                        p_si = (csi * lm)/lm_star if lm_star !=0 else 0
                         for nv in range(va_id[va].size()):
                             for i2 in range(d):
                                 phi[i, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -1936,8 +1936,8 @@ cpdef shap_values_acv_leaves_nopa(const double[:, :] X,
                         coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                        p_s = (cs * lm)/lm_s
-                        p_si = (csi * lm)/lm_si
+                        p_s = (cs * lm)/lm_s if lm_s !=0 else 0
+                        p_si = (csi * lm)/lm_si if lm_si !=0 else 0
 
                         if S_size != 0:
                             for nv in range(va_id[va].size()):
@@ -2165,7 +2165,7 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                         csi = 1
 
                     p_s = lm/data.shape[0]
-                    p_si = (csi * lm)/lm_star[va, leaf_numb]
+                    p_si = (csi * lm)/lm_star[va, leaf_numb] if lm_star[va, leaf_numb] !=0 else 0
                     for nv in range(va_id[va].size()):
                         for i2 in range(d):
                             phi_n[leaf_numb, va_id[va][nv], i2] += (p_si - p_s) * values[b, leaf_idx_trees[b, leaf_numb], i2]
@@ -2241,8 +2241,8 @@ cpdef single_shap_values_acv_leaves_nopa(const double[:] X,
                     coef_0 = 1./binomialC(m-1, va_size) if binomialC(m-1, va_size) !=0 else 0
 
 
-                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter]
-                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter]
+                    p_s = (cs * lm)/lm_s[va, leaf_numb, counter] if lm_s[va, leaf_numb, counter] !=0 else 0
+                    p_si = (csi * lm)/lm_si[va, leaf_numb, counter] if lm_si[va, leaf_numb, counter] !=0 else 0
 
                     if S_size != 0:
                         for nv in range(va_id[va].size()):
-- 
2.43.0


From 4a639ba03623bf2667f1007341eb96dbd36d9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 22/59] fix: accept an empty set of null variables in the
 Python active Shapley values

---
 acv_explainers/py_acv.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/py_acv.py b/acv_explainers/py_acv.py
index 2b533de..6458ef5 100644
--- a/acv_explainers/py_acv.py
+++ b/acv_explainers/py_acv.py
@@ -238,11 +238,13 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
         for i in va_id:
 
             if not set(convert_list(i)).issubset(node_id):
-                comp_si = np.prod([(x[:, s] <= partition_leaf[s, 1]) * (x[:, s] > partition_leaf[s, 0])
-                                   for s in N_star], axis=0)
+                comp_si = np.ones(x.shape[0]) * np.prod([(x[:, s] <= partition_leaf[s, 1]) *
+                                                         (x[:, s] > partition_leaf[s, 0])
+                                                         for s in N_star], axis=0)
 
-                lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
-                             for s in N_star], axis=0))
+                lm_si = np.sum(np.ones(data.shape[0]) * np.prod([(data[:, s] <= partition_leaf[s, 1]) *
+                                                                 (data[:, s] > partition_leaf[s, 0])
+                                                                 for s in N_star], axis=0))
 
                 p_si = comp_si * lm / lm_si if lm_si != 0 else 0 * comp_si
                 p_s = lm / data.shape[0]
@@ -274,8 +276,9 @@ def shap_values_acv_leaves(x, partition_leaves, data, node_idx, leaf_idx, leaves
 
                 lm_si = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
                              for s in chain_l(S) + convert_list(i) + N_star], axis=0))
-                lm_s = np.sum(np.prod([(data[:, s] <= partition_leaf[s, 1]) * (data[:, s] > partition_leaf[s, 0])
-                             for s in chain_l(S) + N_star], axis=0))
+                lm_s = np.sum(np.ones(data.shape[0]) * np.prod([(data[:, s] <= partition_leaf[s, 1]) *
+                                                                (data[:, s] > partition_leaf[s, 0])
+                                                                for s in chain_l(S) + N_star], axis=0))
 
                 p_si = comp_si * lm / lm_si if lm_si != 0 else 0 * comp_si
                 p_s = comp_s * lm / lm_s if lm_s != 0 else 0 * comp_s
-- 
2.43.0


From 99d5f02eda340b329a33d3091153a8d1eeba68af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:46 +0000
Subject: [PATCH 23/59] fix: a leaf without rows in its region has probability
 0 in the normalized expectation, not NaN

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 2 +-
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index e9c67bb..30c3cca 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -146,7 +146,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 16ad991..9fe6475 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -140,7 +140,7 @@ cpdef compute_exp_normalized(double[:, :] X, long[:] S, double[:, :] data, doubl
                 if o_all > 0:
                     continue
 
-                p_n[b, leaf_numb, i] += (1.*lm)/p_ss
+                p_n[b, leaf_numb, i] += (1.*lm)/p_ss if p_ss != 0 else 0
 
                 for j in range(d):
                     mean_forest_b[b, leaf_numb, i, j] += (lm * values[b, leaf_idx_trees[b, leaf_numb], j]) / p_ss if p_ss != 0 else 0
-- 
2.43.0


From 7ebfb56c24bf61361a5ff9db25321c2aadf1d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:46 +0000
Subject: [PATCH 24/59] fix: call the sequential normalized expectation by its
 name

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 6475466..5bca479 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -647,7 +647,7 @@ class ACVTree(BaseTree):
                                                 num_threads)
 
     def compute_exp_normalized_nopa(self, X, S, data, num_threads=10):
-        return cyext_acv.compute_exp_normalized_nopa(np.array(X, dtype=np.float), S, data, self.values,
+        return cyext_acv_nopa.compute_exp_normalized(np.array(X, dtype=np.float), S, data, self.values,
                                                      self.partition_leaves_trees,
                                                      self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                                      num_threads)
-- 
2.43.0


From 1957d1e78bc76e585e97a21eaedc9ec2258e797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:46 +0000
Subject: [PATCH 25/59] fix: condition on no column in the Python expectations

---
 acv_explainers/utils_exp.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/acv_explainers/utils_exp.py b/acv_explainers/utils_exp.py
index c763b6f..9b21c34 100644
--- a/acv_explainers/utils_exp.py
+++ b/acv_explainers/utils_exp.py
@@ -18,15 +18,16 @@ def compute_exp(X, model, S, data):
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
             value = model.values[b, leaf_id]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([np.ones(N)] + [(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
+                                axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
 
             lm = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in index], axis=0)
 
-            p_s = np.prod([(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0]) for s in
-                           S], axis=0)
+            p_s = np.prod([np.ones(data.shape[0])] + [(data[:, s] <= leaf_part[s, 1]) * (data[:, s] > leaf_part[s, 0])
+                                                      for s in S], axis=0)
 
             p_ss = np.sum(p_s)
             for i, x in enumerate(X):
@@ -52,7 +53,8 @@ def compute_exp_cat(X, model, S, data):
             leaf_part = leaves_tree[leaf_numb]
             leaf_id = model.leaf_idx_trees[b, leaf_numb]
 
-            leaf_bool = np.prod([(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S], axis=0)
+            leaf_bool = np.prod([np.ones(N)] + [(X[:, s] <= leaf_part[s, 1]) * (X[:, s] > leaf_part[s, 0]) for s in S],
+                                axis=0)
 
             if np.sum(leaf_bool) == 0:
                 continue
@@ -64,7 +66,7 @@ def compute_exp_cat(X, model, S, data):
                 if leaf_bool[i] == 0:
                     continue
 
-                p_s = np.prod([data[:, s] == x[s] for s in S], axis=0)
+                p_s = np.prod([np.ones(data.shape[0])] + [data[:, s] == x[s] for s in S], axis=0)
                 p_ss = np.sum(p_s)
 
                 mean_forest[i] += (np.sum(lm * p_s) * value) / p_ss if p_ss != 0 else 0
-- 
2.43.0


From 24971cdd364ae83871ef68dd3487975fbd70debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 26/59] fix: read the class probabilities of a boosted binary
 model in the sequential SDP and the swings, not beyond its margin

---
 acv_explainers/acv_tree.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 5bca479..2791d64 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -407,6 +407,19 @@ class ACVTree(BaseTree):
                                                             self.max_var,
                                                             self.node_idx_trees, C, num_threads)
 
+    def _class_values(self):
+        """
+        The leaf values of a classifier on the scale of its classes: a boosted binary model has a single output
+        """
+        if safe_isinstance(self.model, ["xgboost.sklearn.XGBClassifier", "catboost.core.CatBoostClassifier",
+                                        "lightgbm.sklearn.LGBMClassifier",
+                                        "sklearn.ensemble.GradientBoostingClassifier",
+                                        "sklearn.ensemble._gb.GradientBoostingClassifier",
+                                        "sklearn.ensemble.gradient_boosting.GradientBoostingClassifier"]) and \
+                self.num_outputs == 1:
+            return self.values_binary
+        return self.values
+
     def importance_sdp_clf_nopa(self, X, data, C=[[]], pi_level=0.9, minimal=0):
         """
                 Same as importance_sdp_clf, but does not use parallelism
@@ -415,7 +428,7 @@ class ACVTree(BaseTree):
         data = check_array(data, dtype=[np.double])
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, self.values,
+        return cyext_acv_nopa.global_sdp_clf_nopa(X, fX, y_pred, data, self._class_values(),
                                                   self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
                                                   self.scalings, C, pi_level, minimal)
 
@@ -428,7 +441,7 @@ class ACVTree(BaseTree):
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        return cyext_acv_nopa.compute_sdp_clf_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self._class_values(),
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
@@ -440,7 +453,7 @@ class ACVTree(BaseTree):
         S = column_or_1d(S)
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self.values,
+        return cyext_acv_nopa.compute_sdp_clf_cat_nopa(np.array(X, dtype=np.float), fX, y_pred, S, data, self._class_values(),
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
@@ -571,7 +584,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv.swing_sv_clf_direct(np.array(X, dtype=np.float), fX, y_pred, data, self._class_values(),
                                              self.partition_leaves_trees,
                                              self.leaf_idx_trees, self.leaves_nb, self.scalings, C, thresholds,
                                              num_threads)
@@ -579,7 +592,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf_nopa(self, X, data, C=[[]], thresholds=0.9, num_threads=10):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv_nopa.swing_sv_clf_direct_nopa(np.array(X, dtype=np.float), fX, y_pred, data, self._class_values(),
                                                        self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, C,
                                                        thresholds, num_threads)
@@ -593,7 +606,7 @@ class ACVTree(BaseTree):
     def swing_sv_clf_slow(self, X, data, C=[[]], thresholds=0.9, num_threads=5):
         fX = np.argmax(self.model.predict_proba(X), axis=1).astype(np.long)
         y_pred = np.argmax(self.model.predict_proba(data), axis=1).astype(np.long)
-        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, self.values,
+        return cyext_acv.swing_sv_clf(np.array(X, dtype=np.float), fX, y_pred, data, self._class_values(),
                                       self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb, self.scalings,
                                       C, thresholds, num_threads)
 
-- 
2.43.0


From 32482534bd84cfabd5f78e8e712a520cbeabcf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:32 +0000
Subject: [PATCH 27/59] fix: swing values use the probability without the
 player over all leaves, not only over those that the player can reach

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 16 ++++++++--------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 30c3cca..27cd1fb 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -2315,8 +2315,6 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
@@ -2424,9 +2422,9 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -2457,10 +2455,12 @@ cdef compute_sdp_swing_diff(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
+            if len_va_id[va] == m:
+                ss_m = 1
 
             if (ss < thresholds and ss_m < thresholds):
                 sdp[i] = 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 9fe6475..f296d99 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3290,8 +3290,6 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
 
                     if nv_bool == 0:
                         csm = 1
-                    else:
-                        continue
 
 
                 p = 0
@@ -3399,9 +3397,9 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     ss_u += mean_forest[b, leaf_numb, i, 1]/n_u if n_u !=0 else 0
                     ss_d += mean_forest[b, leaf_numb, i, 2]/n_d if n_d !=0 else 0
 
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
 
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
             ss = (ss_a - ss_d)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
@@ -3432,10 +3430,12 @@ cdef compute_sdp_swing_diff_nopa(const double[:, :] X, const long[:] fX,
                     n_d_m += p_d_n_m[b, leaf_numb, i]
 
                 for leaf_numb in range(max_leaves):
-                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n !=0 else 0
-                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u !=0 else 0
-                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d !=0 else 0
+                    ss_a_m += mean_forest_m[b, leaf_numb, i, 0]/n_m if n_m !=0 else 0
+                    ss_u_m += mean_forest_m[b, leaf_numb, i, 1]/n_u_m if n_u_m !=0 else 0
+                    ss_d_m += mean_forest_m[b, leaf_numb, i, 2]/n_d_m if n_d_m !=0 else 0
             ss_m = (ss_a_m - ss_d_m)/(ss_u_m - ss_d_m) if ss_u_m - ss_d_m !=0 else 0
+            if len_va_id[va] == m:
+                ss_m = 1
 
             if (ss < thresholds and ss_m < thresholds):
                 sdp[i] = 0
-- 
2.43.0


From 4d3b342b3629bd4915149aaf0eaf131dca95ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:28 +0000
Subject: [PATCH 28/59] fix: a leaf without matching rows no longer resets the
 sum that normalizes the attributions

---
 acv_explainers/cyext_acv/cyext_acv.pyx       | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_cache.pyx | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 27cd1fb..aa3165c 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1708,7 +1708,7 @@ cpdef shap_values_leaves_normalized(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi[va, leaf_numb, leaf_n, counter] = 1
 
-                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                             p_si = (csi[va, leaf_numb, leaf_numb, counter] * lm)/(lm_si[va, leaf_numb, leaf_numb, counter] * n_si) if n_si*lm_si[va, leaf_numb, leaf_numb, counter] !=0 else 0
                         else:
@@ -1733,8 +1733,8 @@ cpdef shap_values_leaves_normalized(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi[va, leaf_numb, leaf_n, counter] = 1
 
-                                n_s = n_s + (cs[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_s[va, leaf_numb, leaf_n, counter] if lm_s[va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_s[va, leaf_numb, leaf_n, counter] if lm_s[va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi[va, leaf_numb, leaf_n, counter]*lm_n[va, leaf_numb, leaf_n, counter])/lm_si[va, leaf_numb, leaf_n, counter] if lm_si[va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                             p_s = (cs[va, leaf_numb, leaf_numb, counter] * lm)/(lm_s[va, leaf_numb, leaf_numb, counter] * n_s) if n_s*lm_s[va, leaf_numb, leaf_numb, counter] !=0 else 0
                             p_si = (csi[va, leaf_numb, leaf_numb, counter] * lm)/(lm_si[va, leaf_numb,  leaf_numb, counter] * n_si) if n_si*lm_si[va, leaf_numb, leaf_numb, counter] !=0 else 0
diff --git a/acv_explainers/cyext_acv/cyext_acv_cache.pyx b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
index 30791b1..bc950de 100644
--- a/acv_explainers/cyext_acv/cyext_acv_cache.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_cache.pyx
@@ -582,7 +582,7 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
@@ -611,8 +611,8 @@ cpdef shap_values_leaves_normalized_cache(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
                                     cs = cs_n
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index f296d99..b4d017b 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -3011,7 +3011,7 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
 
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
@@ -3040,8 +3040,8 @@ cpdef shap_values_leaves_normalized_cache_nopa(const double[:, :] X,
                                     if nv_bool == 0:
                                         csi_n = 1
 
-                                n_s = n_s + (cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0
-                                n_si = n_si + (csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0
+                                n_s = n_s + ((cs_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_s[b, va, leaf_numb, leaf_n, counter] if lm_s[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
+                                n_si = n_si + ((csi_n * lm[b, va, leaf_numb, leaf_n, counter])/lm_si[b, va, leaf_numb, leaf_n, counter] if lm_si[b, va, leaf_numb, leaf_n, counter] !=0 else 0)
                                 if leaf_n == leaf_numb:
                                     csi = csi_n
                                     cs = cs_n
-- 
2.43.0


From a5694dfe11eb00786a40951bce010e481c31051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:28 +0000
Subject: [PATCH 29/59] fix: fill the cache of normalized leaf probabilities
 also without the plain cache

---
 acv_explainers/base_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index edf9d10..031b093 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -643,11 +643,11 @@ class BaseTree:
                 else:
                     self.lm, self.lm_s, self.lm_si = self.leaves_cache_nopa(C=self.C)
 
-                if self.cache_normalized:
-                    if self.multi_threads:
-                        self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized(C=self.C)
-                    else:
-                        self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized_nopa(C=self.C)
+            if self.cache_normalized:
+                if self.multi_threads:
+                    self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized(C=self.C)
+                else:
+                    self.lm_n, self.lm_s_n, self.lm_si_n = self.leaves_cache_normalized_nopa(C=self.C)
 
             # make sure the base offset is a 1D array
             if not hasattr(self.base_offset, "__len__") or len(self.base_offset) == 0:
-- 
2.43.0


From 69cd6fab30b07dd4d50528c3aedf434929ce951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:13 +0000
Subject: [PATCH 30/59] fix: the decision probability of a regressor with
 several trees keeps the pairs of trees apart and no longer depends on the
 previous sample

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 152 ++++++++++----------
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 152 ++++++++++----------
 2 files changed, 150 insertions(+), 154 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index aa3165c..9e98b95 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -498,9 +498,15 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
     p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
     p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
     p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :] ss_tree
+    ss_tree = np.zeros((N, 3))
     cdef double n, n_u, n_d
 
     for b in range(n_trees):
+        p_n[:, :, :, :] = 0
+        p_u_n[:, :, :, :] = 0
+        p_d_n[:, :, :, :] = 0
+        mean_forest_b[:, :, :, :, :] = 0
         for l in range(n_trees):
             if b == l:
                 leaves_tree = partition_leaves_trees[b]
@@ -619,37 +625,32 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                     p_d += lm[j]
                                     p_sd += lm_s[j]
 
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                            mean_forest_b[l, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                            mean_forest_b[l, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                            mean_forest_b[l, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                            p_n[b, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
-    for i in range(N):
-        ss_u = 0
-        ss_d = 0
-        ss_a = 0
-        for b in range(n_trees):
+                            p_n[l, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
+                            p_u_n[l, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                            p_d_n[l, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+        for i in range(N):
+            n = 0
+            n_u = 0
+            n_d = 0
+            nb_leaf = leaves_nb[b]
+            for leaf_numb in range(nb_leaf):
+                n += p_n[b, leaf_numb, leaf_numb, i]
+                n_u += p_u_n[b, leaf_numb, leaf_numb, i]
+                n_d += p_d_n[b, leaf_numb, leaf_numb, i]
+            norm[b] = n
+            norm_u[b] = n_u
+            norm_d[b] = n_d
             for l in range(n_trees):
                 if b == l:
-                    n = 0
-                    n_u = 0
-                    n_d = 0
-                    nb_leaf = leaves_nb[b]
                     for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
-                    for leaf_numb in range(nb_leaf):
-                        ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
-                        ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
-                        ss_d += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
+                        ss_tree[i, 0] += mean_forest_b[b, leaf_numb, leaf_numb, i, 0]/norm[b] if norm[b] !=0 else 0
+                        ss_tree[i, 1] += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
+                        ss_tree[i, 2] += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
                 else:
-                    nb_leaf = leaves_nb[b]
                     nb_leaf_l = leaves_nb[l]
 
                     for leaf_numb in range(nb_leaf):
@@ -657,16 +658,18 @@ cpdef compute_sdp_reg(double[:, :] X, double[:] fX, double tX,
                         n_u = 0
                         n_d = 0
                         for leaf_numb_l in range(nb_leaf_l):
-                            n += p_n[b, leaf_numb, leaf_numb_l, i]
-                            n_u += p_u_n[b, leaf_numb, leaf_numb_l, i]
-                            n_d += p_d_n[b, leaf_numb, leaf_numb_l, i]
+                            n += p_n[l, leaf_numb, leaf_numb_l, i]
+                            n_u += p_u_n[l, leaf_numb, leaf_numb_l, i]
+                            n_d += p_d_n[l, leaf_numb, leaf_numb_l, i]
 
                         for leaf_numb_l in range(nb_leaf_l):
-                            ss_a += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
-                            ss_u += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                            ss_d += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
-
-
+                            ss_tree[i, 0] += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, i, 0]/n) if n*norm[b] !=0  else 0
+                            ss_tree[i, 1] += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                            ss_tree[i, 2] += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
+    for i in range(N):
+        ss_a = ss_tree[i, 0]
+        ss_u = ss_tree[i, 1]
+        ss_d = ss_tree[i, 2]
         sdp[i] = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
 
     return np.array(sdp)
@@ -1007,6 +1010,8 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
     p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
     p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :] ss_tree
+    ss_tree = np.zeros((N, 3))
     cdef double n, n_u, n_d
     cdef list power, va_id
 
@@ -1061,16 +1066,12 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
             for i in range(N):
                 R_buf[i] = R[i]
 
+            ss_tree[:, :] = 0
             for b in range(n_trees):
-                for leaf_numb in range(max_leaves):
-                    for leaf_numb_l in range(max_leaves):
-                        for i in range(N):
-                            p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            for j in range(3):
-                                mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
-            for b in range(n_trees):
+                p_n[:, :, :, :] = 0
+                p_u_n[:, :, :, :] = 0
+                p_d_n[:, :, :, :] = 0
+                mean_forest_b[:, :, :, :, :] = 0
                 for l in range(n_trees):
                     if b == l:
                         leaves_tree = partition_leaves_trees[b]
@@ -1189,37 +1190,32 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                             p_d += lm[j]
                                             p_sd += lm_s[j]
 
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                                    mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                                    mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                                    mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                                    p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                    p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                    p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
-            for i in range(N):
-                ss_u = 0
-                ss_d = 0
-                ss_a = 0
-                for b in range(n_trees):
+                                    p_n[l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                    p_u_n[l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                    p_d_n[l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                for i in range(N):
+                    n = 0
+                    n_u = 0
+                    n_d = 0
+                    nb_leaf = leaves_nb[b]
+                    for leaf_numb in range(nb_leaf):
+                        n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                    norm[b] = n
+                    norm_u[b] = n_u
+                    norm_d[b] = n_d
                     for l in range(n_trees):
                         if b == l:
-                            n = 0
-                            n_u = 0
-                            n_d = 0
-                            nb_leaf = leaves_nb[b]
-                            for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                            norm[b] = n
-                            norm_u[b] = n_u
-                            norm_d[b] = n_d
                             for leaf_numb in range(nb_leaf):
-                                ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
-                                ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-                                ss_d += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
+                                ss_tree[R_buf[i], 0] += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
+                                ss_tree[R_buf[i], 1] += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
+                                ss_tree[R_buf[i], 2] += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
                         else:
-                            nb_leaf = leaves_nb[b]
                             nb_leaf_l = leaves_nb[l]
 
                             for leaf_numb in range(nb_leaf):
@@ -1227,16 +1223,18 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 n_u = 0
                                 n_d = 0
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    n += p_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_u += p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_d += p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n += p_n[l, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_u += p_u_n[l, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_d += p_d_n[l, leaf_numb, leaf_numb_l, R_buf[i]]
 
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    ss_a += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
-                                    ss_u += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                                    ss_d += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
-
-
+                                    ss_tree[R_buf[i], 0] += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 0]/n) if n*norm[b] !=0  else 0
+                                    ss_tree[R_buf[i], 1] += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                                    ss_tree[R_buf[i], 2] += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
+            for i in range(N):
+                ss_a = ss_tree[R_buf[i], 0]
+                ss_u = ss_tree[R_buf[i], 1]
+                ss_d = ss_tree[R_buf[i], 2]
                 ss = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
                 if ss >= sdp[R_buf[i]]:
                     sdp[R_buf[i]] = ss
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index b4d017b..a15ab20 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -492,9 +492,15 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
     p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
     p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :] ss_tree
+    ss_tree = np.zeros((N, 3))
     cdef double n, n_u, n_d
 
     for b in range(n_trees):
+        p_n[:, :, :, :] = 0
+        p_u_n[:, :, :, :] = 0
+        p_d_n[:, :, :, :] = 0
+        mean_forest_b[:, :, :, :, :] = 0
         for l in range(n_trees):
             if b == l:
                 leaves_tree = partition_leaves_trees[b]
@@ -613,37 +619,32 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                     p_d += lm[j]
                                     p_sd += lm_s[j]
 
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                            mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                            mean_forest_b[l, leaf_numb, leaf_numb_l, i, 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                            mean_forest_b[l, leaf_numb, leaf_numb_l, i, 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                            mean_forest_b[l, leaf_numb, leaf_numb_l, i, 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                            p_n[b, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
-    for i in range(N):
-        ss_u = 0
-        ss_d = 0
-        ss_a = 0
-        for b in range(n_trees):
+                            p_n[l, leaf_numb, leaf_numb_l, i] += (1.*p)/p_s if p_s != 0 else 0
+                            p_u_n[l, leaf_numb, leaf_numb_l, i] += (1.*p_u)/p_su if p_su != 0 else 0
+                            p_d_n[l, leaf_numb, leaf_numb_l, i] += (1.*p_d)/p_sd if p_sd != 0 else 0
+        for i in range(N):
+            n = 0
+            n_u = 0
+            n_d = 0
+            nb_leaf = leaves_nb[b]
+            for leaf_numb in range(nb_leaf):
+                n += p_n[b, leaf_numb, leaf_numb, i]
+                n_u += p_u_n[b, leaf_numb, leaf_numb, i]
+                n_d += p_d_n[b, leaf_numb, leaf_numb, i]
+            norm[b] = n
+            norm_u[b] = n_u
+            norm_d[b] = n_d
             for l in range(n_trees):
                 if b == l:
-                    n = 0
-                    n_u = 0
-                    n_d = 0
-                    nb_leaf = leaves_nb[b]
                     for leaf_numb in range(nb_leaf):
-                        n += p_n[b, leaf_numb, leaf_numb, i]
-                        n_u += p_u_n[b, leaf_numb, leaf_numb, i]
-                        n_d += p_d_n[b, leaf_numb, leaf_numb, i]
-                    norm[b] = n
-                    norm_u[b] = n_u
-                    norm_d[b] = n_d
-                    for leaf_numb in range(nb_leaf):
-                        ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  i, 0]/norm[b] if norm[b] !=0 else 0
-                        ss_u += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
-                        ss_d += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
+                        ss_tree[i, 0] += mean_forest_b[b, leaf_numb, leaf_numb, i, 0]/norm[b] if norm[b] !=0 else 0
+                        ss_tree[i, 1] += mean_forest_b[b, leaf_numb, leaf_numb, i, 1]/norm_u[b] if norm_u[b] !=0 else 0
+                        ss_tree[i, 2] += mean_forest_b[b, leaf_numb, leaf_numb, i, 2]/norm_d[b] if norm_d[b] !=0 else 0
                 else:
-                    nb_leaf = leaves_nb[b]
                     nb_leaf_l = leaves_nb[l]
 
                     for leaf_numb in range(nb_leaf):
@@ -651,16 +652,18 @@ cpdef compute_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                         n_u = 0
                         n_d = 0
                         for leaf_numb_l in range(nb_leaf_l):
-                            n += p_n[b, leaf_numb, leaf_numb_l, i]
-                            n_u += p_u_n[b, leaf_numb, leaf_numb_l, i]
-                            n_d += p_d_n[b, leaf_numb, leaf_numb_l, i]
+                            n += p_n[l, leaf_numb, leaf_numb_l, i]
+                            n_u += p_u_n[l, leaf_numb, leaf_numb_l, i]
+                            n_d += p_d_n[l, leaf_numb, leaf_numb_l, i]
 
                         for leaf_numb_l in range(nb_leaf_l):
-                            ss_a += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  i, 0]/n) if n*norm[b] !=0  else 0
-                            ss_u += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                            ss_d += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
-
-
+                            ss_tree[i, 0] += (p_n[b, leaf_numb, leaf_numb, i]/norm[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, i, 0]/n) if n*norm[b] !=0  else 0
+                            ss_tree[i, 1] += (p_u_n[b, leaf_numb, leaf_numb, i]/norm_u[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, i, 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                            ss_tree[i, 2] += (p_d_n[b, leaf_numb, leaf_numb, i]/norm_d[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, i, 2]/n_d) if n_d*norm_d[b] !=0 else 0
+    for i in range(N):
+        ss_a = ss_tree[i, 0]
+        ss_u = ss_tree[i, 1]
+        ss_d = ss_tree[i, 2]
         sdp[i] = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
 
     return np.array(sdp)
@@ -1001,6 +1004,8 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     p_n = np.zeros((n_trees, max_leaves, max_leaves, N))
     p_u_n = np.zeros((n_trees, max_leaves, max_leaves, N))
     p_d_n = np.zeros((n_trees, max_leaves, max_leaves, N))
+    cdef double[:, :] ss_tree
+    ss_tree = np.zeros((N, 3))
     cdef double n, n_u, n_d
     cdef list power, va_id
 
@@ -1055,16 +1060,12 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
             for i in range(N):
                 R_buf[i] = R[i]
 
+            ss_tree[:, :] = 0
             for b in range(n_trees):
-                for leaf_numb in range(max_leaves):
-                    for leaf_numb_l in range(max_leaves):
-                        for i in range(N):
-                            p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] = 0
-                            for j in range(3):
-                                mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], j] = 0
-            for b in range(n_trees):
+                p_n[:, :, :, :] = 0
+                p_u_n[:, :, :, :] = 0
+                p_d_n[:, :, :, :] = 0
+                mean_forest_b[:, :, :, :, :] = 0
                 for l in range(n_trees):
                     if b == l:
                         leaves_tree = partition_leaves_trees[b]
@@ -1183,37 +1184,32 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                             p_d += lm[j]
                                             p_sd += lm_s[j]
 
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
-                                    mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
+                                    mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 0] += (p * value*value_l) / (p_s)  if p_s != 0 else 0
+                                    mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 1] += (p_u * value*value_l) / (p_su)  if p_su != 0 else 0
+                                    mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 2] += (p_d * value*value_l) / (p_sd) if p_sd != 0 else 0
 
-                                    p_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
-                                    p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
-                                    p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
-            for i in range(N):
-                ss_u = 0
-                ss_d = 0
-                ss_a = 0
-                for b in range(n_trees):
+                                    p_n[l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p)/p_s if p_s != 0 else 0
+                                    p_u_n[l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_u)/p_su if p_su != 0 else 0
+                                    p_d_n[l, leaf_numb, leaf_numb_l, R_buf[i]] += (1.*p_d)/p_sd if p_sd != 0 else 0
+                for i in range(N):
+                    n = 0
+                    n_u = 0
+                    n_d = 0
+                    nb_leaf = leaves_nb[b]
+                    for leaf_numb in range(nb_leaf):
+                        n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                        n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
+                    norm[b] = n
+                    norm_u[b] = n_u
+                    norm_d[b] = n_d
                     for l in range(n_trees):
                         if b == l:
-                            n = 0
-                            n_u = 0
-                            n_d = 0
-                            nb_leaf = leaves_nb[b]
-                            for leaf_numb in range(nb_leaf):
-                                n += p_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_u += p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                                n_d += p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]
-                            norm[b] = n
-                            norm_u[b] = n_u
-                            norm_d[b] = n_d
                             for leaf_numb in range(nb_leaf):
-                                ss_a += mean_forest_b[b, leaf_numb, leaf_numb,  R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
-                                ss_u += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
-                                ss_d += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
+                                ss_tree[R_buf[i], 0] += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 0]/norm[b] if norm[b] !=0 else 0
+                                ss_tree[R_buf[i], 1] += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 1]/norm_u[b] if norm_u[b] !=0 else 0
+                                ss_tree[R_buf[i], 2] += mean_forest_b[b, leaf_numb, leaf_numb, R_buf[i], 2]/norm_d[b] if norm_d[b] !=0 else 0
                         else:
-                            nb_leaf = leaves_nb[b]
                             nb_leaf_l = leaves_nb[l]
 
                             for leaf_numb in range(nb_leaf):
@@ -1221,16 +1217,18 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 n_u = 0
                                 n_d = 0
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    n += p_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_u += p_u_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
-                                    n_d += p_d_n[b, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n += p_n[l, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_u += p_u_n[l, leaf_numb, leaf_numb_l, R_buf[i]]
+                                    n_d += p_d_n[l, leaf_numb, leaf_numb_l, R_buf[i]]
 
                                 for leaf_numb_l in range(nb_leaf_l):
-                                    ss_a += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l,  R_buf[i], 0]/n) if n*norm[b] !=0  else 0
-                                    ss_u += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
-                                    ss_d += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[b, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
-
-
+                                    ss_tree[R_buf[i], 0] += (p_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 0]/n) if n*norm[b] !=0  else 0
+                                    ss_tree[R_buf[i], 1] += (p_u_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_u[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 1]/n_u) if n_u*norm_u[b] !=0 else 0
+                                    ss_tree[R_buf[i], 2] += (p_d_n[b, leaf_numb, leaf_numb, R_buf[i]]/norm_d[b])*(mean_forest_b[l, leaf_numb, leaf_numb_l, R_buf[i], 2]/n_d) if n_d*norm_d[b] !=0 else 0
+            for i in range(N):
+                ss_a = ss_tree[R_buf[i], 0]
+                ss_u = ss_tree[R_buf[i], 1]
+                ss_d = ss_tree[R_buf[i], 2]
                 ss = (ss_u - ss_a)/(ss_u - ss_d) if ss_u - ss_d !=0 else 0
                 if ss >= sdp[R_buf[i]]:
                     sdp[R_buf[i]] = ss
-- 
2.43.0


From 9723d99ef44cbc81cb3c154afba13aa50cc498f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:56 +0000
Subject: [PATCH 31/59] fix: the decision probability of a regressor with a
 base value compares sums of leaf values, not one with and one without it

---
 acv_explainers/acv_tree.py  | 38 +++++++++++++++++++++----------------
 acv_explainers/utils_sdp.py |  8 ++++----
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index 2791d64..bef1a63 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -407,6 +407,12 @@ class ACVTree(BaseTree):
                                                             self.max_var,
                                                             self.node_idx_trees, C, num_threads)
 
+    def _predict_trees(self, X):
+        """
+        The sum of the leaf values, that is the prediction without the base value of the model
+        """
+        return self.predict(X) - self.base_offset
+
     def _class_values(self):
         """
         The leaf values of a classifier on the scale of its classes: a boosted binary model has a single output
@@ -566,8 +572,8 @@ class ACVTree(BaseTree):
     def compute_sdp_reg(self, X, tX, S, data, num_threads=10):
         # if self.partition_leaves_trees.shape[0] > 1:
         #     raise NotImplementedError('Continuous SDP is currently available only for trees with n_trees=1')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self._predict_trees(X)
+        y_pred = self._predict_trees(data)
         return cyext_acv.compute_sdp_reg(np.array(X, dtype=np.float), fX, tX, y_pred, S, data, self.values,
                                          self.partition_leaves_trees,
                                          self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
@@ -575,8 +581,8 @@ class ACVTree(BaseTree):
     def compute_sdp_reg_cat(self, X, tX, S, data, num_threads=10):
         # raise Warning('The current implementation may take a long time if n_trees and depth are large. The number of '
         #               'operation is 2**(depth*n_trees)')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self._predict_trees(X)
+        y_pred = self._predict_trees(data)
         return cyext_acv.compute_sdp_reg_cat(np.array(X, dtype=np.float), fX, tX, y_pred, S, data, self.values,
                                              self.partition_leaves_trees,
                                              self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
@@ -611,8 +617,8 @@ class ACVTree(BaseTree):
                                       C, thresholds, num_threads)
 
     def importance_sdp_reg_cat(self, X, tX, data, C=[[]], pi_level=0.9, minimal=0, stop=True):
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self._predict_trees(X)
+        y_pred = self._predict_trees(data)
         return cyext_acv.global_sdp_reg_cat(np.array(X, dtype=np.float), fX, tX, y_pred, data, self.values,
                                             self.partition_leaves_trees,
                                             self.leaf_idx_trees, self.leaves_nb, self.scalings, C, pi_level,
@@ -621,15 +627,15 @@ class ACVTree(BaseTree):
     def importance_sdp_reg(self, X, tX, data, C=[[]], pi_level=0.9, minimal=0, stop=True):
         # if self.partition_leaves_trees.shape[0] > 1:
         #     raise NotImplementedError('Continuous SDP is currently available only for trees with n_trees=1')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self._predict_trees(X)
+        y_pred = self._predict_trees(data)
         return cyext_acv.global_sdp_reg(np.array(X, dtype=np.float), fX, tX, y_pred, data, self.values,
                                         self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
                                         self.scalings, C, pi_level, minimal, stop)
 
     def importance_sdp_reg_cat_nopa(self, X, tX, data, C=[[]], pi_level=0.9, minimal=0):
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self._predict_trees(X)
+        y_pred = self._predict_trees(data)
         return cyext_acv_nopa.global_sdp_reg_cat_nopa(np.array(X, dtype=np.float), fX, tX, y_pred, data, self.values,
                                                       self.partition_leaves_trees,
                                                       self.leaf_idx_trees, self.leaves_nb, self.scalings, C,
@@ -638,8 +644,8 @@ class ACVTree(BaseTree):
     def importance_sdp_reg_nopa(self, X, tX, data, C=[[]], pi_level=0.9, minimal=0):
         # if self.partition_leaves_trees.shape[0] > 1:
         #     raise NotImplementedError('Continuous SDP is currently available only for trees with n_trees=1')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self._predict_trees(X)
+        y_pred = self._predict_trees(data)
         return cyext_acv_nopa.global_sdp_reg_nopa(np.array(X, dtype=np.float), fX, tX, y_pred, data, self.values,
                                                   self.partition_leaves_trees, self.leaf_idx_trees, self.leaves_nb,
                                                   self.scalings, C, pi_level, minimal)
@@ -724,16 +730,16 @@ class ACVTree(BaseTree):
     def compute_sdp_reg_nopa(self, X, tX, S, data, num_threads=10):
         # if self.partition_leaves_trees.shape[0] > 1:
         #     raise NotImplementedError('Continuous SDP is currently available only for trees with n_trees=1')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self._predict_trees(X)
+        y_pred = self._predict_trees(data)
         return cyext_acv_nopa.compute_sdp_reg_nopa(np.array(X, dtype=np.float), fX, tX, y_pred, S, data, self.values,
                                                    self.partition_leaves_trees,
                                                    self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
 
     def compute_sdp_reg_cat_nopa(self, X, tX, S, data, num_threads=10):
         # raise Warning('The current implementation may take a long time if n_trees > 10 and depth > 6')
-        fX = self.predict(X)
-        y_pred = self.predict(data)
+        fX = self._predict_trees(X)
+        y_pred = self._predict_trees(data)
         return cyext_acv_nopa.compute_sdp_reg_cat_nopa(np.array(X, dtype=np.float), fX, tX, y_pred, S, data,
                                                        self.values, self.partition_leaves_trees,
                                                        self.leaf_idx_trees, self.leaves_nb, self.scalings, num_threads)
diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index 2365689..9d8ebfb 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -14,8 +14,8 @@ def compute_sdp_reg(X, tX, model, S, data):
         return np.zeros(N)
 
     n_trees = len(model.trees)
-    y_pred = model.predict(data)
-    fX = model.predict(X)
+    y_pred = model.predict(data) - model.base_offset
+    fX = model.predict(X) - model.base_offset
     mean_forest = np.zeros((N, 3))
 
     for b in range(n_trees):
@@ -132,8 +132,8 @@ def compute_sdp_reg_cat(X, tX, model, S, data):
         return np.zeros(N)
 
     n_trees = len(model.trees)
-    y_pred = model.predict(data)
-    fX = model.predict(X)
+    y_pred = model.predict(data) - model.base_offset
+    fX = model.predict(X) - model.base_offset
     mean_forest = np.zeros((N, 3))
 
     for b in range(n_trees):
-- 
2.43.0


From 04a8dcf2bb1598b53ed26757db20280f290da94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 32/59] fix: the search for explanations with many columns ends
 with the coalitions that were listed, instead of reading beyond them

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 6 +++---
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 6 +++---
 acv_explainers/utils_sdp.py                 | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index 9e98b95..b2fc636 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -920,7 +920,7 @@ cpdef global_sdp_reg_cat(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1055,7 +1055,7 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -3148,7 +3148,7 @@ cpdef global_sdp_clf_ptrees(double[:, :] X, long[:] fX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index a15ab20..4f15528 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -914,7 +914,7 @@ cpdef global_sdp_reg_cat_nopa(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1049,7 +1049,7 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -1374,7 +1374,7 @@ cpdef global_sdp_clf_nopa(double[:, :] X, long[:] fX,
     cdef long power_set_size = 2**m
     S = np.zeros((data.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, power_cpp[s_0].size()):
             for i in range(power_cpp[s_0][s_1].size()):
                 S[i] = power_cpp[s_0][s_1][i]
diff --git a/acv_explainers/utils_sdp.py b/acv_explainers/utils_sdp.py
index 9d8ebfb..3476f28 100644
--- a/acv_explainers/utils_sdp.py
+++ b/acv_explainers/utils_sdp.py
@@ -441,7 +441,7 @@ def importance_msdp_clf_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
     s_star = -1 * np.ones((N, X.shape[1]), dtype=np.int)
     S = np.zeros((X.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, len(power_cpp[s_0])):
             for i in range(len(power_cpp[s_0][s_1])):
                 S[i] = power_cpp[s_0][s_1][i]
@@ -561,7 +561,7 @@ def importance_msdp_reg_search(X, model, rg_data, C=[[]], minimal=1, pi_level=0.
     s_star = -1 * np.ones((N, X.shape[1]), dtype=np.int)
     S = np.zeros((X.shape[1]), dtype=np.int)
 
-    for s_0 in tqdm(range(minimal, m + 1)):
+    for s_0 in tqdm(range(minimal, min(m + 1, len(power)))):
         for s_1 in range(0, len(power_cpp[s_0])):
             for i in range(len(power_cpp[s_0][s_1])):
                 S[i] = power_cpp[s_0][s_1][i]
-- 
2.43.0


From 02ca2185df317e905965179db3b0690dace1db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 33/59] fix: explanations of regressors with groups of columns
 count the rows of a leaf by all columns, not by as many as there are groups

---
 acv_explainers/cyext_acv/cyext_acv.pyx      | 8 ++++----
 acv_explainers/cyext_acv/cyext_acv_nopa.pyx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index b2fc636..b91f6cf 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -1087,14 +1087,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                             for i in prange(data.shape[0], nogil=True):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1152,14 +1152,14 @@ cpdef global_sdp_reg(double[:, :] X, double[:] fX, double tX,
                                 for i in prange(data.shape[0], nogil=True):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
diff --git a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
index 4f15528..d73c642 100644
--- a/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv_nopa.pyx
@@ -1081,14 +1081,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                             for i in range(data.shape[0]):
                                 a_it = 0
                                 b_it = 0
-                                for s in range(m):
+                                for s in range(data.shape[1]):
                                     if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0])):
                                         a_it = a_it + 1
                                 for s in range(S_size):
                                     if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0])):
                                         b_it = b_it + 1
 
-                                if a_it == m:
+                                if a_it == data.shape[1]:
                                     lm[i] = 1
 
                                 if b_it == S_size:
@@ -1146,14 +1146,14 @@ cpdef global_sdp_reg_nopa(double[:, :] X, double[:] fX, double tX,
                                 for i in range(data.shape[0]):
                                     a_it = 0
                                     b_it = 0
-                                    for s in range(m):
+                                    for s in range(data.shape[1]):
                                         if ((data[i, s] <= leaf_part[s, 1]) and (data[i, s] > leaf_part[s, 0]) and (data[i, s] <= leaf_part_l[s, 1]) and (data[i, s] > leaf_part_l[s, 0])):
                                             a_it = a_it + 1
                                     for s in range(S_size):
                                         if ((data[i, S[s]] <= leaf_part[S[s], 1]) and (data[i, S[s]] > leaf_part[S[s], 0]) and (data[i, S[s]] <= leaf_part_l[S[s], 1]) and (data[i, S[s]] > leaf_part_l[S[s], 0])):
                                             b_it = b_it + 1
 
-                                    if a_it == m:
+                                    if a_it == data.shape[1]:
                                         lm[i] = 1
 
                                     if b_it == S_size:
-- 
2.43.0


From 6db46a55fa8deaa20cb1559b4214c9a2f99a5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 34/59] fix: explain the forest of the last fit, not the one of
 the first

---
 acv_explainers/acv_agnosticX.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acv_explainers/acv_agnosticX.py b/acv_explainers/acv_agnosticX.py
index e1ab738..7bed995 100644
--- a/acv_explainers/acv_agnosticX.py
+++ b/acv_explainers/acv_agnosticX.py
@@ -160,6 +160,7 @@ class ACXplainer:
         self.d = X.shape[1]
         self.model.fit(X=X, y=y, sample_weight=sample_weight, split_select_weights=split_select_weights,
                        always_split_features=always_split_features, categorical_features=categorical_features)
+        self.check_is_explain = False  # the explainer of a previous fit is stale
 
     def fit_global_rules(self, X, y, rules, rules_s_star):
         # TODO: think about removing s_star ? add complexity ?
-- 
2.43.0


From 01534b07d6390fc3e607017a84327ad3659ac399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 35/59] fix: do not read the tree at the missing children of a
 leaf in the conditional distribution and quantiles

---
 acv_explainers/cyext_acv/cyext_acv.pyx | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/acv_explainers/cyext_acv/cyext_acv.pyx b/acv_explainers/cyext_acv/cyext_acv.pyx
index b91f6cf..910aca6 100644
--- a/acv_explainers/cyext_acv/cyext_acv.pyx
+++ b/acv_explainers/cyext_acv/cyext_acv.pyx
@@ -4059,6 +4059,10 @@ cdef double single_compute_sdp_rf_v0(double[:] & x, double & y_x,  double[:, :]
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4372,6 +4376,8 @@ cdef double single_compute_quantile_rf(double[:] & x, double & y_x,  double[:, :
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0:  # the missing child of a leaf is not a node
+                    continue
                 s = 0
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4466,6 +4472,10 @@ cdef double single_compute_quantile_diff_rf(double[:] & x, double & y_x,  double
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4552,6 +4562,10 @@ cdef double single_compute_cdf_rf(double[:] & x, double & y_x,  double[:, :] & d
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4727,6 +4741,10 @@ cdef double single_compute_sdp_rule_v0(double[:] & x, double & y_x,  double[:, :
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
@@ -4858,6 +4876,8 @@ cdef double single_compute_sdp_rule_biased(double[:] & x, double & y_x, vector[i
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0:  # the missing child of a leaf is not a node
+                    continue
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
 
@@ -5008,6 +5028,10 @@ cdef double single_compute_sdp_rule_v0_weights(double[:] & x, double & y_x,  dou
 
         for level in range(max_depth):
             for it_node in range(nodes_level.size()):
+                if nodes_level[it_node] < 0:  # the missing child of a leaf is not a node
+                    if in_data.size() < min_node_size:
+                        break
+                    continue
 
                 if std_find[vector[int].iterator, int](S.begin(), S.end(), features[b, nodes_level[it_node]]) != S.end():
                     if x[features[b, nodes_level[it_node]]] <= thresholds[b, nodes_level[it_node]]:
-- 
2.43.0


From 08a16173631ed48e1de2bc36288793e117165b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 36/59] fix: read the base score of a boosted model whose bytes
 start with a letter of the header

---
 acv_explainers/base_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 031b093..1a2135f 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1209,7 +1209,9 @@ class XGBTreeModelLoader(object):
 
     def __init__(self, xgb_model):
         # new in XGBoost 1.1, 'binf' is appended to the buffer
-        self.buf = xgb_model.save_raw().lstrip(b'binf')
+        self.buf = xgb_model.save_raw()
+        if self.buf.startswith(b'binf'):
+            self.buf = self.buf[4:]
         self.pos = 0
 
         # load the model parameters
-- 
2.43.0


From 4247a9fb23b93fcc8b522ce20896a9f7d886abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 37/59] fix: the base score of the boosted models with a log
 link is on the scale of the output, not of the margin

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 1a2135f..fb3d027 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1232,6 +1232,8 @@ class XGBTreeModelLoader(object):
         if LooseVersion(xgboost.__version__).version[0] >= 1:
             if self.name_obj in ["binary:logistic", "reg:logistic"]:
                 self.base_score = scipy.special.logit(self.base_score)  # pylint: disable=no-member
+            elif self.name_obj in ["count:poisson", "reg:gamma", "reg:tweedie", "survival:cox", "survival:aft"]:
+                self.base_score = np.log(self.base_score)
 
         assert self.name_gbm == "gbtree", "Only the 'gbtree' model type is supported, not '%s'!" % self.name_gbm
 
-- 
2.43.0


From ea9efb7e05a32987c9dc8ffc3e264f3c41065fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 38/59] fix: gradient boosting with the exponential loss starts
 from half of the log odds

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index fb3d027..828e594 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -281,6 +281,8 @@ class BaseTree:
             elif safe_isinstance(model.init_, "sklearn.dummy.DummyClassifier"):
                 self.base_offset = scipy.special.logit(model.init_.class_prior_[
                                                            1])  # with two classes the trees only model the second class. # pylint: disable=no-member
+                if model.loss == "exponential":
+                    self.base_offset *= 0.5  # this loss models half of the log odds
                 self.tree_output = "log_odds"
             else:
                 assert False, "Unsupported init model type: " + str(type(model.init_))
-- 
2.43.0


From 115057633869713d9f89fa0b0db869d83c6b872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 39/59] fix: the trees of a boosted multi-class model with
 parallel trees belong to the class that the model says

---
 acv_explainers/base_tree.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 828e594..c508f7c 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -32,6 +32,7 @@ class BaseTree:
         self.fully_defined_weighting = True  # does the background dataset land in every leaf (making it valid for the tree_path_dependent method)
         self.tree_limit = None  # used for limiting the number of trees we use by default (like from early stopping)
         self.num_stacked_models = 1  # If this is greater than 1 it means we have multiple stacked models with the same number of trees in each model (XGBoost multi-output style)
+        self.tree_class = None  # The stacked model of each tree, if they do not simply alternate (XGBoost with parallel trees)
         self.cat_feature_indices = None  # If this is set it tells us which features are treated categorically
         self.model = model
         self.cache = cache
@@ -333,6 +334,7 @@ class BaseTree:
             self.tree_output = tree_output_name_map.get(xgb_loader.name_obj, None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+                self.tree_class = xgb_loader.tree_info
             # self.scaling = 1
         elif safe_isinstance(model, "xgboost.sklearn.XGBClassifier"):
             import xgboost
@@ -347,6 +349,7 @@ class BaseTree:
             self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+                self.tree_class = xgb_loader.tree_info
                 if self.tree_limit is not None:
                     self.tree_limit *= self.num_stacked_models  # best_ntree_limit counts one tree per boosting round
             if self.model_output == "predict_proba":
@@ -367,6 +370,7 @@ class BaseTree:
             self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+                self.tree_class = xgb_loader.tree_info
             # self.scaling = 1
         elif safe_isinstance(model, "xgboost.sklearn.XGBRanker"):
             import xgboost
@@ -380,6 +384,7 @@ class BaseTree:
             self.tree_limit = getattr(model, "best_ntree_limit", None)
             if xgb_loader.num_class > 0:
                 self.num_stacked_models = xgb_loader.num_class
+                self.tree_class = xgb_loader.tree_info
             # self.scaling = 1
         elif safe_isinstance(model, "lightgbm.basic.Booster"):
             assert_import("lightgbm")
@@ -571,7 +576,7 @@ class BaseTree:
                 self.thresholds[i, :len(self.trees[i].thresholds)] = self.trees[i].thresholds
                 if self.num_stacked_models > 1:
                     # stack_pos = int(i // (num_trees / self.num_stacked_models))
-                    stack_pos = i % self.num_stacked_models
+                    stack_pos = i % self.num_stacked_models if self.tree_class is None else self.tree_class[i]
                     self.values[i, :len(self.trees[i].values[:, 0]), stack_pos] = self.trees[i].values[:, 0]
                 else:
                     self.values[i, :len(self.trees[i].values)] = self.trees[i].values
@@ -1300,6 +1305,9 @@ class XGBTreeModelLoader(object):
                 self.base_weight[-1][j] = self.read('f')
                 self.leaf_child_cnt[-1][j] = self.read('i')
 
+        # the class that each tree belongs to
+        self.tree_info = [self.read('i') for _ in range(self.num_trees)]
+
     def get_trees(self, data=None, data_missing=None):
         shape = (self.num_trees, self.num_nodes.max())
         self.children_default = np.zeros(shape, dtype=np.int)
-- 
2.43.0


From 33c0e9c93858c9dee607221c4de47387bec4e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 40/59] fix: explain a boosted model that stopped early by the
 trees it predicts with

---
 acv_explainers/base_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index c508f7c..ac8dee2 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -518,6 +518,10 @@ class BaseTree:
         else:
             raise Exception("Model type not yet supported by TreeExplainer: " + str(type(model)))
 
+        # the trees after an early stop are not part of the model
+        if self.tree_limit is not None:
+            self.trees = self.trees[:self.tree_limit]
+
         # build a dense numpy version of all the tree objects
         if self.trees is not None and self.trees:
             max_nodes = np.max([len(t.values) for t in self.trees])
-- 
2.43.0


From c2784b23d162d32a64ea00a427337162133a5aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 41/59] fix: rank the columns of a loaded model without
 importances by the trees of that model

---
 acv_explainers/acv_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_explainers/acv_tree.py b/acv_explainers/acv_tree.py
index bef1a63..ce1407c 100644
--- a/acv_explainers/acv_tree.py
+++ b/acv_explainers/acv_tree.py
@@ -991,7 +991,7 @@ class ACVTree(BaseTree):
                 feature_importance = -np.array(self.model.feature_importances_)
                 search_space = list(np.argsort(feature_importance))
             except AttributeError:
-                flat_list = [item for t in self.ACXplainer.node_idx_trees for sublist in t for item in sublist]
+                flat_list = [item for t in self.node_idx_trees for sublist in t for item in sublist]
                 node_idx = pd.Series(flat_list)
                 search_space = []
                 for v in (node_idx.value_counts().keys()):
-- 
2.43.0


From 625910cd8f0748bed5a9c9cffcbca35172665d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 42/59] fix: bar_legacy returns the figure that it draws on

---
 acv_app/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_app/plots.py b/acv_app/plots.py
index 34bdec7..e2d07d9 100644
--- a/acv_app/plots.py
+++ b/acv_app/plots.py
@@ -428,4 +428,4 @@ def bar_legacy(shap_values, features=None, feature_names=None, max_display=None,
 
     pl.xlabel("SHAP value (impact on model output)")
 
-    return fig
\ No newline at end of file
+    return pl.gcf()
\ No newline at end of file
-- 
2.43.0


From 3e35f735820b8a2b89858bdf73d1c246163d9b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 43/59] fix: the application offers only observations that
 exist

---
 acv_app/sdp_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_app/sdp_app.py b/acv_app/sdp_app.py
index 0e29f50..a386374 100644
--- a/acv_app/sdp_app.py
+++ b/acv_app/sdp_app.py
@@ -40,7 +40,7 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
 
     idx = st.selectbox(
         'Choose the observation you want to explain',
-        list(range(nb))
+        list(range(min(nb, x_test.shape[0])))
     )
 
     @st.cache(allow_output_mutation=True)
-- 
2.43.0


From fc6f8409b6e5a4b2e67e8d68c00de5f9e89614c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 44/59] fix: the application offers only observations whose
 Shapley values are computed

---
 acv_app/sv_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acv_app/sv_app.py b/acv_app/sv_app.py
index 9d80176..733884e 100644
--- a/acv_app/sv_app.py
+++ b/acv_app/sv_app.py
@@ -12,7 +12,7 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
         return acvtree.ACXplainer.shap_values(x_test.values.astype(np.double)[:100], x_train.values.astype(np.double))
     idx = st.selectbox(
         'Choose the observation you want to explain',
-        list(range(x_test.shape[0]))
+        list(range(min(100, x_test.shape[0])))  # those that compute_sv explains
     )
 
     col1, col2 = st.columns(2)
-- 
2.43.0


From 1562956e8e43a7331fbdff85b191f8961456acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 45/59] fix: the waterfall starts from the mean output of the
 background of the attributions

---
 acv_app/sv_app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_app/sv_app.py b/acv_app/sv_app.py
index 733884e..7e73e42 100644
--- a/acv_app/sv_app.py
+++ b/acv_app/sv_app.py
@@ -19,9 +19,9 @@ def write_pg(x_train, x_test, y_train, y_test, acvtree):
     with col1:
         sv = compute_sv()
         if acvtree.classifier != True:
-            pred = acvtree.predict(x_test.values.astype(np.double))
+            pred = acvtree.predict(x_train.values.astype(np.double))
         else:
-            pred = acvtree.predict_proba(x_test.values.astype(np.double))
+            pred = acvtree.predict_proba(x_train.values.astype(np.double))
         if sv.shape[2] != 1:
             base = np.mean(pred[:, 1])
             fig = waterfall(base, sv[idx, :, 1], x_test.values[idx], x_test.columns)
-- 
2.43.0


From b1d129234b865e609b6ebdbc78159a025a303119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 46/59] fix: the application can show a test set of one
 observation

---
 acv_app/app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_app/app.py b/acv_app/app.py
index 94ce07b..4d0e3c7 100644
--- a/acv_app/app.py
+++ b/acv_app/app.py
@@ -80,9 +80,9 @@ def main(LOAD_PATH):
     @st.cache
     def load_data():
         x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'))
-        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv')).values.squeeze()
+        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv')).values.reshape(-1)
         x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'))
-        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv')).values.squeeze()
+        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv')).values.reshape(-1)
         return x_train, x_test, y_train, y_test
 
     # data_load_state = st.sidebar.text('Loading data...')
-- 
2.43.0


From b25fbc7b4d6ffa47dff2f77a0fa52346b74b6e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 47/59] fix: the application reads back the exact values that
 were stored

---
 acv_app/app.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acv_app/app.py b/acv_app/app.py
index 4d0e3c7..4698ac1 100644
--- a/acv_app/app.py
+++ b/acv_app/app.py
@@ -79,10 +79,10 @@ def main(LOAD_PATH):
 
     @st.cache
     def load_data():
-        x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'))
-        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv')).values.reshape(-1)
-        x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'))
-        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv')).values.reshape(-1)
+        x_train = pd.read_csv(os.path.join(LOAD_PATH, 'x_train.csv'), float_precision='round_trip')
+        y_train = pd.read_csv(os.path.join(LOAD_PATH, 'y_train.csv'), float_precision='round_trip').values.reshape(-1)
+        x_test = pd.read_csv(os.path.join(LOAD_PATH, 'x_test.csv'), float_precision='round_trip')
+        y_test = pd.read_csv(os.path.join(LOAD_PATH, 'y_test.csv'), float_precision='round_trip').values.reshape(-1)
         return x_train, x_test, y_train, y_test
 
     # data_load_state = st.sidebar.text('Loading data...')
-- 
2.43.0


From b7b8bbd64ae70fe3f24f364a187c39c0eafa65ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 48/59] fix: refuse histogram gradient boosting with
 categorical splits instead of loading other thresholds

---
 acv_explainers/base_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index ac8dee2..3342211 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -220,6 +220,8 @@ class BaseTree:
             self.trees = []
             for p in model._predictors:
                 nodes = p[0].nodes
+                assert "is_categorical" not in nodes.dtype.names or not nodes["is_categorical"].any(), \
+                    "Splits on categorical features are not supported!"
                 # each node has values: ('value', 'count', 'feature_idx', 'threshold', 'missing_go_to_left', 'left', 'right', 'gain', 'depth', 'is_leaf', 'bin_threshold')
                 tree = {
                     "children_left": np.array([-1 if n[9] else n[5] for n in nodes]),
-- 
2.43.0


From dc67958e0f008d260bf674fee2e3ef7393260432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 49/59] fix: read the class from the dummy columns in their own
 order, not in that of the condition

---
 experiments/exp_linear_gmm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/experiments/exp_linear_gmm.py b/experiments/exp_linear_gmm.py
index a50d5a0..8b37268 100644
--- a/experiments/exp_linear_gmm.py
+++ b/experiments/exp_linear_gmm.py
@@ -239,7 +239,7 @@ class ExperimentsLinearGMM:
                         cond_exp += self.pi[key] * self.cond_exp_linear_y_set(x_in, key, S)
             else:  # if condition on categorical variable
                 if len(cat_va) > 1:  # ==> condition on a group of dummy variable [y1, y2] ==> on cat variable
-                    cond_exp = self.cond_exp_linear_y_set(x, self.revers_dummy[str(list(x[cat_va]))], S)
+                    cond_exp = self.cond_exp_linear_y_set(x, self.revers_dummy[str(list(x[self.cat_index]))], S)
 
                 else:  # ==> conditioning on 1 dummy
                     if x_in[cat_va] == 1:  # if dummy, y1 or y2 = 1 ==> condition on 'a' or 'b'
@@ -342,7 +342,7 @@ class ExperimentsLinearGMM:
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
                     p = [1]
-                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[cat_va]))]], p, N)
+                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[self.cat_index]))]], p, N)
 
                 else:  # ==> number of categorical variable is 1
 
@@ -484,7 +484,7 @@ class ExperimentsLinearGMM:
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
                     p = [1]
-                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[cat_va]))]], p, N)
+                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[self.cat_index]))]], p, N)
 
                 else:  # ==> number of categorical variable is 1
 
@@ -628,7 +628,7 @@ class ExperimentsLinearGMM:
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
                     p = [1]
-                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[cat_va]))]], p, N)
+                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[self.cat_index]))]], p, N)
 
                 else:  # ==> number of categorical variable is 1
 
@@ -769,7 +769,7 @@ class ExperimentsLinearGMM:
             else:
                 if len(cat_va) > 1:  # this two condition ==> grouping categorical variable
                     p = [1]
-                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[cat_va]))]], p, N)
+                    rg_data = gen_data_by_cat([self.revers_dummy[str(list(x[self.cat_index]))]], p, N)
 
                 else:  # ==> number of categorical variable is 1
 
-- 
2.43.0


From d5b7339f905c697e6ad219e5c9cc9cd5d63161b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 50/59] fix: keep the numerical columns in the order of the
 data when all of them are fixed

---
 experiments/exp_linear_gmm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experiments/exp_linear_gmm.py b/experiments/exp_linear_gmm.py
index 8b37268..16d50d5 100644
--- a/experiments/exp_linear_gmm.py
+++ b/experiments/exp_linear_gmm.py
@@ -370,7 +370,7 @@ class ExperimentsLinearGMM:
             if len(S) == len(x_in):
                 y_pred = self.linear_gmm_batch(np.expand_dims(np.array(x, dtype=np.float32), axis=0))
             else:
-                S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
+                S = self.index  # all numerical index, in the order of the columns
                 if cat_va == []:
                     prob = [self.pi[key] * self.density_x_y_set(x_in, key, S) for key in self.pi.keys()]
                     p_x = np.sum(prob)
@@ -513,7 +513,7 @@ class ExperimentsLinearGMM:
             if len(S) == len(x_in):
                 y_pred = model.predict(np.expand_dims(np.array(x, dtype=np.float32), axis=0))
             else:
-                S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
+                S = self.index  # all numerical index, in the order of the columns
                 if cat_va == []:
                     prob = [self.pi[key] * self.density_x_y_set(x_in, key, S) for key in self.pi.keys()]
                     p_x_y = np.sum(prob)
@@ -657,7 +657,7 @@ class ExperimentsLinearGMM:
             if len(S) == len(x_in):
                 y_pred = (model.predict(np.expand_dims(np.array(x, dtype=np.float32), axis=0)) - fx) ** 2
             else:
-                S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
+                S = self.index  # all numerical index, in the order of the columns
                 if cat_va == []:
                     prob = [self.pi[key] * self.density_x_y_set(x_in, key, S) for key in self.pi.keys()]
                     p_x_y = np.sum(prob)
@@ -798,7 +798,7 @@ class ExperimentsLinearGMM:
                 rg_data = pd.DataFrame(rg_data,
                                        columns=[str(s) for s in self.index] + [str(ca) for ca in self.cat_index])
             else:
-                S = [cu for cu in S if cu not in self.cat_index]  # get numerical index
+                S = self.index  # all numerical index, in the order of the columns
                 if cat_va == []:
                     prob = [self.pi[key] * self.density_x_y_set(x_in, key, S) for key in self.pi.keys()]
                     p_x_y = np.sum(prob)
-- 
2.43.0


From dac06a0ce6ae5d0f085d8a709daae725daa27cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 51/59] fix: the interventional estimators of the experiments
 also average over the dummy columns

---
 experiments/exp_linear_gmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/exp_linear_gmm.py b/experiments/exp_linear_gmm.py
index 16d50d5..ff155b6 100644
--- a/experiments/exp_linear_gmm.py
+++ b/experiments/exp_linear_gmm.py
@@ -1055,7 +1055,7 @@ class ExperimentsLinearGMM:
             return self.cond_exp_tree_intv(tree, x, S, v, explore, get_partition, get_final_partition, data)
 
         elif algo == 'plugin_interventional':
-            S_bar = [i for i in self.index if i not in S]
+            S_bar = [i for i in range(len(x)) if i not in S]
             if S == []:
                 compatible_leaves = np.zeros(tree.node_count)
                 explore(0, compatible_leaves)
@@ -1086,7 +1086,7 @@ class ExperimentsLinearGMM:
     def cond_exp_tree_intv(self, model, x, S, v, explore, get_partition, get_final_partition, data):
         """ Compute marginal expectation of a tree_regressor """
 
-        S_bar = np.array([i for i in self.index if i not in S and type(i) != str])
+        S_bar = np.array([i for i in range(len(x)) if i not in S and type(i) != str])
         x_in = x.copy()
 
         if len(S) != len(x_in):
-- 
2.43.0


From 35ac82afa6b175c07e2ad3e8a7ada16411f0dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 52/59] fix: cond_dist_tree with the path estimator returned
 the output instead of the squared distance

---
 experiments/exp_linear_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/exp_linear_gmm.py b/experiments/exp_linear_gmm.py
index ff155b6..947c18a 100644
--- a/experiments/exp_linear_gmm.py
+++ b/experiments/exp_linear_gmm.py
@@ -1267,7 +1267,7 @@ class ExperimentsLinearGMM:
         def G(i, w):
 
             if f[i] == -2:
-                return float(w * v[i])
+                return float(w * (v[i] - fx) ** 2)
             else:
                 if (f[i] in S):
                     if x[f[i]] <= t[i]:
-- 
2.43.0


From 7694babaae894dd9740d7fd9362389672b496804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 53/59] fix: sampleMarMVN called marMVN without its last
 argument

---
 acv_explainers/utils.py | 2 +-
 experiments/utils.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acv_explainers/utils.py b/acv_explainers/utils.py
index addbf94..f5279de 100644
--- a/acv_explainers/utils.py
+++ b/acv_explainers/utils.py
@@ -301,7 +301,7 @@ def sampleMVN(n, mean, cov, set_bar, set, x):
 
 
 def sampleMarMVN(n, mean, cov, set_bar, set):
-    mean_cond, cov_cond = marMVN(mean, cov, set_bar, set)
+    mean_cond, cov_cond = marMVN(mean, cov, set_bar, set, [])
     sample = st.multivariate_normal(mean_cond, cov_cond).rvs(n)
     return np.reshape(sample, (n, len(set_bar)))
 
diff --git a/experiments/utils.py b/experiments/utils.py
index bd0d647..bfd9194 100644
--- a/experiments/utils.py
+++ b/experiments/utils.py
@@ -376,7 +376,7 @@ def sampleMVN(n, mean, cov, set_bar, set, x):
 
 
 def sampleMarMVN(n, mean, cov, set_bar, set):
-    mean_cond, cov_cond = marMVN(mean, cov, set_bar, set)
+    mean_cond, cov_cond = marMVN(mean, cov, set_bar, set, [])
     sample = st.multivariate_normal(mean_cond, cov_cond).rvs(n)
     return np.reshape(sample, (n, len(set_bar)))
 
-- 
2.43.0


From a3214a32dfe98ef99c875e33c6614b35880174ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 54/59] fix: LightGBM models with a tree without splits were
 not loaded

---
 acv_explainers/base_tree.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 3342211..f323c3b 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -1001,17 +1001,15 @@ class SingleTree:
                         queue.append(vertex['left_child'])
                         queue.append(vertex['right_child'])
                 else:
-                    self.children_left[vertex['leaf_index'] + num_parents] = -1
-                    self.children_right[vertex['leaf_index'] + num_parents] = -1
-                    self.children_default[vertex['leaf_index'] + num_parents] = -1
-                    self.features[vertex['leaf_index'] + num_parents] = -1
-                    self.children_left[vertex['leaf_index'] + num_parents] = -1
-                    self.children_right[vertex['leaf_index'] + num_parents] = -1
-                    self.children_default[vertex['leaf_index'] + num_parents] = -1
-                    self.features[vertex['leaf_index'] + num_parents] = -1
-                    self.thresholds[vertex['leaf_index'] + num_parents] = -1
-                    self.values[vertex['leaf_index'] + num_parents] = [vertex['leaf_value']]
-                    self.node_sample_weight[vertex['leaf_index'] + num_parents] = vertex['leaf_count']
+                    # a tree without splits is a leaf that has no index
+                    leaf = vertex.get('leaf_index', 0) + num_parents
+                    self.children_left[leaf] = -1
+                    self.children_right[leaf] = -1
+                    self.children_default[leaf] = -1
+                    self.features[leaf] = -1
+                    self.thresholds[leaf] = -1
+                    self.values[leaf] = [vertex['leaf_value']]
+                    self.node_sample_weight[leaf] = vertex.get('leaf_count', 0)
             self.values = np.asarray(self.values)
             self.values = np.multiply(self.values, scaling)
 
-- 
2.43.0


From 70e7856b2470e6f2de7554cda5cec397039f29d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 55/59] fix: LightGBM splits on one category and linear leaves
 were loaded as other models

---
 acv_explainers/base_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index f323c3b..fe49db7 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -979,6 +979,8 @@ class SingleTree:
             while queue:
                 vertex = queue.pop(0)
                 if 'split_index' in vertex.keys():
+                    if vertex['decision_type'] != '<=':
+                        raise NotImplementedError('Categorical splits are not yet implemented')
                     if vertex['split_index'] not in visited:
                         if 'split_index' in vertex['left_child'].keys():
                             self.children_left[vertex['split_index']] = vertex['left_child']['split_index']
@@ -1001,6 +1003,8 @@ class SingleTree:
                         queue.append(vertex['left_child'])
                         queue.append(vertex['right_child'])
                 else:
+                    if vertex.get('leaf_coeff'):
+                        raise NotImplementedError('Linear models in the leaves are not yet implemented')
                     # a tree without splits is a leaf that has no index
                     leaf = vertex.get('leaf_index', 0) + num_parents
                     self.children_left[leaf] = -1
-- 
2.43.0


From 062949f26c5e942aaad78c8ffa1f02a36d39635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 56/59] fix: missing values in LightGBM models trained without
 them count as 0

---
 acv_explainers/base_tree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index fe49db7..1fa58ed 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -991,7 +991,11 @@ class SingleTree:
                         else:
                             self.children_right[vertex['split_index']] = vertex['right_child'][
                                                                              'leaf_index'] + num_parents
-                        if vertex['default_left']:
+                        if vertex.get('missing_type') == 'None':  # a missing value counts as 0
+                            default_left = 0 <= vertex['threshold']
+                        else:
+                            default_left = vertex['default_left']
+                        if default_left:
                             self.children_default[vertex['split_index']] = self.children_left[vertex['split_index']]
                         else:
                             self.children_default[vertex['split_index']] = self.children_right[vertex['split_index']]
-- 
2.43.0


From be27b051bb25cd3a1edee6c25a499421faa94792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 57/59] fix: the classes of a LightGBM booster were added up

---
 acv_explainers/base_tree.py | 45 +++++++++++++++----------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 1fa58ed..aaec411 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -392,11 +392,7 @@ class BaseTree:
             assert_import("lightgbm")
             self.model_type = "lightgbm"
             self.original_model = model
-            tree_info = self.original_model.dump_model()["tree_info"]
-            try:
-                self.trees = [SingleTree(e, data=data, data_missing=data_missing) for e in tree_info]
-            except:
-                self.trees = None  # we get here because the cext can't handle categorical splits yet
+            self._load_lightgbm_trees(data, data_missing)
 
             self.objective = objective_name_map.get(model.params.get("objective", "regression"), None)
             self.tree_output = tree_output_name_map.get(model.params.get("objective", "regression"), None)
@@ -406,11 +402,7 @@ class BaseTree:
             assert_import("gpboost")
             self.model_type = "gpboost"
             self.original_model = model
-            tree_info = self.original_model.dump_model()["tree_info"]
-            try:
-                self.trees = [SingleTree(e, data=data, data_missing=data_missing) for e in tree_info]
-            except:
-                self.trees = None  # we get here because the cext can't handle categorical splits yet
+            self._load_lightgbm_trees(data, data_missing)
 
             self.objective = objective_name_map.get(model.params.get("objective", "regression"), None)
             self.tree_output = tree_output_name_map.get(model.params.get("objective", "regression"), None)
@@ -420,11 +412,7 @@ class BaseTree:
             assert_import("lightgbm")
             self.model_type = "lightgbm"
             self.original_model = model.booster_
-            tree_info = self.original_model.dump_model()["tree_info"]
-            try:
-                self.trees = [SingleTree(e, data=data, data_missing=data_missing) for e in tree_info]
-            except:
-                self.trees = None  # we get here because the cext can't handle categorical splits yet
+            self._load_lightgbm_trees(data, data_missing)
             self.objective = objective_name_map.get(model.objective, None)
             self.tree_output = tree_output_name_map.get(model.objective, None)
             if model.objective is None:
@@ -435,25 +423,15 @@ class BaseTree:
             assert_import("lightgbm")
             self.model_type = "lightgbm"
             self.original_model = model.booster_
-            tree_info = self.original_model.dump_model()["tree_info"]
-            try:
-                self.trees = [SingleTree(e, data=data, data_missing=data_missing) for e in tree_info]
-            except:
-                self.trees = None  # we get here because the cext can't handle categorical splits yet
+            self._load_lightgbm_trees(data, data_missing)
             # Note: for ranker, leaving tree_output and objective as None as they
             # are not implemented in native code yet
             # self.scaling = 1
         elif safe_isinstance(model, "lightgbm.sklearn.LGBMClassifier"):
             assert_import("lightgbm")
             self.model_type = "lightgbm"
-            if model.n_classes_ > 2:
-                self.num_stacked_models = model.n_classes_
             self.original_model = model.booster_
-            tree_info = self.original_model.dump_model()["tree_info"]
-            try:
-                self.trees = [SingleTree(e, data=data, data_missing=data_missing) for e in tree_info]
-            except:
-                self.trees = None  # we get here because the cext can't handle categorical splits yet
+            self._load_lightgbm_trees(data, data_missing)
             self.objective = objective_name_map.get(model.objective, None)
             self.tree_output = tree_output_name_map.get(model.objective, None)
             if model.objective is None:
@@ -722,6 +700,19 @@ class BaseTree:
                                   proba, C, verbose):
         pass
 
+    def _load_lightgbm_trees(self, data, data_missing):
+        """
+        Load the trees of the booster self.original_model
+        """
+        dump = self.original_model.dump_model()
+        # several classes: the trees of the classes take turns
+        self.num_stacked_models = dump.get("num_tree_per_iteration", 1)
+        try:
+            self.trees = [SingleTree(e, data=data, data_missing=data_missing)
+                          for e in dump["tree_info"]]
+        except:
+            self.trees = None  # we get here because the cext can't handle categorical splits yet
+
     def predict(self, X, y=None, output=None, tree_limit=None):
         """ A consistent interface to make predictions from this model.
 
-- 
2.43.0


From fad9dcc85e998a550120acea0b31e729564e2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 58/59] fix: LightGBM random forests are averages of their
 trees, not sums

---
 acv_explainers/base_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index aaec411..10db1cf 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -707,8 +707,10 @@ class BaseTree:
         dump = self.original_model.dump_model()
         # several classes: the trees of the classes take turns
         self.num_stacked_models = dump.get("num_tree_per_iteration", 1)
+        # the output of a random forest is the average of its trees
+        scaling = self.num_stacked_models / len(dump["tree_info"]) if dump.get("average_output") else 1.0
         try:
-            self.trees = [SingleTree(e, data=data, data_missing=data_missing)
+            self.trees = [SingleTree(e, scaling=scaling, data=data, data_missing=data_missing)
                           for e in dump["tree_info"]]
         except:
             self.trees = None  # we get here because the cext can't handle categorical splits yet
-- 
2.43.0


From ee25137e1a46928350f1edf77b95563046546ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 59/59] fix: CatBoost classifiers with several classes, a bias,
 a scale or categories were loaded as other models

---
 acv_explainers/base_tree.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/acv_explainers/base_tree.py b/acv_explainers/base_tree.py
index 10db1cf..dbae976 100644
--- a/acv_explainers/base_tree.py
+++ b/acv_explainers/base_tree.py
@@ -452,6 +452,7 @@ class BaseTree:
             try:
                 cb_loader = CatBoostTreeModelLoader(model)
                 self.trees = cb_loader.get_trees(data=data, data_missing=data_missing)
+                self.base_offset = cb_loader.bias
             except:
                 self.trees = None  # we get here because the cext can't handle categorical splits yet
             self.tree_output = "log_odds"
@@ -1401,6 +1402,10 @@ class CatBoostTreeModelLoader:
         self.num_trees = len(self.loaded_cb_model['oblivious_trees'])
         self.max_depth = self.loaded_cb_model['model_info']['params']['tree_learner_options']['depth']
 
+        # the output is scale * (sum of the trees) + bias, where the bias has one entry per output
+        self.scale, bias = self.loaded_cb_model.get('scale_and_bias', [1.0, [0.0]])
+        self.bias = np.array(bias, dtype=np.float64).reshape(-1)
+
     def get_trees(self, data=None, data_missing=None):
         # load each tree
         trees = []
@@ -1419,8 +1424,10 @@ class CatBoostTreeModelLoader:
                 leaf_weights_unraveled[index] = leaf_weights_unraveled[2 * index + 1] + leaf_weights_unraveled[
                     2 * index + 2]
 
-            leaf_values = self.loaded_cb_model['oblivious_trees'][tree_index]['leaf_values']
-            leaf_values_unraveled = [0] * (len(leaf_values) - 1) + leaf_values
+            # one value per leaf and output
+            leaf_values = np.array(self.loaded_cb_model['oblivious_trees'][tree_index]['leaf_values'], dtype=np.float64)
+            leaf_values = leaf_values.reshape((len(leaf_weights), -1)) * self.scale
+            leaf_values_unraveled = np.concatenate([np.zeros((len(leaf_values) - 1, leaf_values.shape[1])), leaf_values])
 
             children_left = [i * 2 + 1 for i in range(len(leaf_values) - 1)]
             children_left += [-1] * len(leaf_values)
@@ -1442,12 +1449,8 @@ class CatBoostTreeModelLoader:
                 if split_type == 'FloatFeature':
                     split_feature_index = elem.get('float_feature_index')
                     borders.append(elem['border'])
-                elif split_type == 'OneHotFeature':
-                    split_feature_index = elem.get('cat_feature_index')
-                    borders.append(elem['value'])
                 else:
-                    split_feature_index = elem.get('ctr_target_border_idx')
-                    borders.append(elem['border'])
+                    raise NotImplementedError('Categorical splits are not yet implemented')
                 split_features_index.append(split_feature_index)
 
             split_features_index_unraveled = []
@@ -1465,7 +1468,7 @@ class CatBoostTreeModelLoader:
                                      "children_default": np.array(children_default),
                                      "feature": np.array(split_features_index_unraveled),
                                      "threshold": np.array(borders_unraveled),
-                                     "value": np.array(leaf_values_unraveled).reshape((-1, 1)),
+                                     "value": leaf_values_unraveled,
                                      "node_sample_weight": np.array(leaf_weights_unraveled),
                                      }, data=data, data_missing=data_missing))
 
-- 
2.43.0

