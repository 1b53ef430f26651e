From 4b92e2a99f12c3c313febc1465b8a01d05283a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 001/170] fix: TreeBasedTensor: matrix times vector-valued
 tensor records the number of rows as root rank

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 04074de..dd517fe 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -347,7 +347,7 @@ class TreeBasedTensor:
             tensor.tensors[root] = tensor.tensors[root].tensor_matrix_product(
                 arg, tensor.tensors[root].order - 1
             )
-            tensor.ranks[root] = arg.shape[1]
+            tensor.ranks[root] = arg.shape[0]
         else:
             raise ValueError("Wrong shapes.")
         return tensor
-- 
2.43.0


From 3acd78f3080126ec5cdc7ddd7c384bb521a8e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 002/170] fix: TreeBasedTensor.eval_diag with dimensions leaves
 the tensor unchanged

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index dd517fe..d4c3923 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1267,7 +1267,8 @@ class TreeBasedTensor:
             subtree, nodes = tree.sub_dimension_tree(alpha)
             xs = tensap.TreeBasedTensor(self.tensors[nodes - 1], subtree)
             xs = xs.eval_diag()
-            self.tensors[alpha - 1] = xs
+            tensors = np.array(self.tensors)
+            tensors[alpha - 1] = xs
             # indices of the nodes that are kept
             keep_ind = tensap.fast_setdiff(
                 np.arange(tree.nb_nodes), tree.descendants(alpha) - 1
@@ -1285,7 +1286,7 @@ class TreeBasedTensor:
             mu = np.where(alpha == keep_ind + 1)[0][0] + 1
             dim2ind.insert(0, mu)
             newtree = tensap.DimensionTree(dim2ind, adj)
-            return TreeBasedTensor(self.tensors[keep_ind], newtree)
+            return TreeBasedTensor(tensors[keep_ind], newtree)
 
     def cat(self, tensor2):
         """
-- 
2.43.0


From 7fdc8b161cbd78bd73a3674cbbfa9dd34cb27f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 003/170] fix: TreeBasedTensor.change_root with a root rank
 greater than one

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index d4c3923..ff51cd3 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -608,8 +608,12 @@ class TreeBasedTensor:
         assert x.is_active_node[nod - 1], "Can not make an inactive node the root node."
 
         if x.ranks[x.tree.root - 1] > 1:
-            x.tree = x.tree.addChild(x.tree.root)
-            x.tensors = np.concatenate((x.tensors, []))
+            x.tree = x.tree.add_child(x.tree.root)
+            tensors = np.empty(x.tree.nb_nodes, dtype=object)
+            tensors[:-1] = x.tensors
+            tensors[-1] = tensap.FullTensor([])
+            x.tensors = tensors
+            x.order = x.tree.dim2ind.size
             x = x.update_attributes()
             x = x.change_root(nod)
         else:
-- 
2.43.0


From cb05e7ace99ba76dd17b61d3b415e96a744fe637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 004/170] fix: TreeBasedTensor.remove_unique_children leaves
 the tensor unchanged

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index ff51cd3..3b5732b 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1623,10 +1623,10 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        tensors = self.tensors
+        tensors = np.array(self.tensors)
         nb_children = np.count_nonzero(tree._children, 0)
         unique_children = tree._children[0, (nb_children == 1)]
-        adj = tree.adjacency_matrix
+        adj = np.array(tree.adjacency_matrix)
         dim2ind = np.array(tree.dim2ind)
 
         for level in np.arange(np.max(tree.level), -1, -1):
-- 
2.43.0


From fd5a05906e4be3cbd250e1b593c82da8a1730655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 005/170] fix: TreeBasedTensor.permute_leaves leaves its
 argument unchanged

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 3b5732b..914cb05 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1057,7 +1057,7 @@ class TreeBasedTensor:
 
         """
         tensor = self
-        perm = np.atleast_1d(perm)
+        perm = np.array(perm, ndmin=1)
         if not np.array_equal(perm, np.sort(perm)):
             # Decomposition of the permutation into a sequence of elementary
             # permutations of two dimensions
-- 
2.43.0


From 9f79dafcabe306c6fcf22401b11a5215f99d78f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 006/170] fix: TreeBasedTensor.nodes_permutation_cost leaves
 the ranks unchanged and uses the shapes of the inactive nodes

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 914cb05..0353e94 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -710,10 +710,9 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        ranks = self.ranks
-        ranks[self.non_active_nodes - 1] = self.shape[
-            np.logical_not(self.is_active_node[tree.dim2ind - 1])
-        ]
+        ranks = np.array(self.ranks)
+        non_active_dims = np.logical_not(self.is_active_node[tree.dim2ind - 1])
+        ranks[tree.dim2ind[non_active_dims] - 1] = self.shape[non_active_dims]
 
         cost = np.zeros(tree.nb_nodes)
         for beta in np.arange(1, tree.nb_nodes + 1):
-- 
2.43.0


From 7189b983dd003d802a4025579a7acddeecd3f331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 007/170] fix: TreeBasedTensor.optimize_dimension_tree
 terminates when no permutation is possible

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 0353e94..649e974 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -761,6 +761,9 @@ class TreeBasedTensor:
 
         nodes = tensap.fast_setdiff(np.arange(1, nb_nodes + 1), self.tree.root)
 
+        if not np.any([self.nodes_permutation_cost(nod) for nod in nodes]):
+            return tensor_star
+
         proba_m = 1 / np.arange(1, self.order + 1) ** 2
 
         c_star = self.storage()
-- 
2.43.0


From a05878fb89c41be95678fdf01a5969c847cc3b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 008/170] fix: Truncator.hsvd does not claim that a truncated
 representation is orthonormal

---
 tensap/tensor_algebra/tools/truncator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index 207a7d7..c479e1a 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -457,8 +457,7 @@ class Truncator:
                             parent - 1
                         ].tensor_matrix_product(tmp, ch_nb - 1)
                 out = out.update_attributes()
-                out.is_orth = True
-                out.orth_node = tree.root
+                out.is_orth = False
             else:
                 raise ValueError("Wrong value of _hsvd_type.")
         else:
-- 
2.43.0


From 285c0edd7944a0bd433a5c71ff7104ee2926c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 009/170] fix: Truncator.hosvd and hsvd keep the maximal ranks
 of the truncator

---
 tensap/tensor_algebra/tools/truncator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index c479e1a..aead41a 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -262,6 +262,7 @@ class Truncator:
         if order == 2:
             out = self.svd(tensor)
         else:
+            truncator_max_rank = self.max_rank
             max_rank = np.atleast_1d(self.max_rank)
             if max_rank.size == 1:
                 max_rank = np.repeat(max_rank, order)
@@ -272,6 +273,8 @@ class Truncator:
                     self.max_rank = max_rank[dim]
                     vec[dim] = self.trunc_svd(tensor.matricize(dim).numpy(), local_tol)
                     vec[dim] = vec[dim].space[0]
+                self.max_rank = truncator_max_rank
+
                 core = tensor.tensor_matrix_product(np.transpose(vec[0]), 0)
                 for dim in np.arange(1, order):
                     core = core.tensor_matrix_product(np.transpose(vec[dim]), dim)
@@ -324,6 +327,7 @@ class Truncator:
         elif is_active_node is None:
             is_active_node = np.full(tree.nb_nodes, True)
 
+        truncator_max_rank = self.max_rank
         max_rank = np.atleast_1d(self.max_rank)
         if max_rank.size == 1:
             max_rank = np.repeat(max_rank, tree.nb_nodes)
@@ -462,6 +466,8 @@ class Truncator:
                 raise ValueError("Wrong value of _hsvd_type.")
         else:
             raise NotImplementedError("Method not implemented.")
+
+        self.max_rank = truncator_max_rank
         return out
 
     def ttsvd(self, tensor):
-- 
2.43.0


From 601571743cc69dd2655bbdc436cdee44eacae67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 010/170] fix: TreeBasedTensor.gramians of several nodes

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 649e974..68e3593 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1726,7 +1726,7 @@ class TreeBasedTensor:
                 dtype=alpha.dtype,
             )
             list_nodes = tensap.fast_intersect(
-                list_nodes, np.concatenate((ascendants, alpha))
+                list_nodes, np.unique(np.concatenate((ascendants, alpha)))
             )
 
         for level in range(max_level + 1):
-- 
2.43.0


From 788325a7757a68c98042e3685942b66d24b82052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 011/170] fix: TreeBasedTensor.is_admissible_rank uses the
 shapes of the inactive nodes whatever the order of the leaves

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 68e3593..0ca6ecb 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -447,9 +447,9 @@ class TreeBasedTensor:
             print("Inactive nodes must have an alpha-rank equal to 0.")
         else:
             is_admiss = True
-            ranks[tensap.fast_intersect(tree.dim2ind, self.non_active_nodes) - 1] = (
-                self.shape[self.non_active_dims]
-            )
+            ranks[tree.dim2ind[self.non_active_dims] - 1] = self.shape[
+                self.non_active_dims
+            ]
             for nod in tensap.fast_intersect(tree.internal_nodes, self.active_nodes):
                 children = tree.children(nod)
                 active_ch = tensap.fast_intersect(children, self.active_nodes)
-- 
2.43.0


From c6e6d3a391d1c8fc527d40c4a17f6ef78720c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 012/170] fix: FullTensor.reduce_sum and reduce_mean accept
 lists and arrays of dimensions

---
 tensap/tensor_algebra/tensors/full_tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index d4a117f..0cba094 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -614,6 +614,8 @@ class FullTensor:
             The reduced tensor.
 
         """
+        if dims is not None:
+            dims = tuple(np.atleast_1d(dims))
         return FullTensor(np.sum(self.data, dims, keepdims=True))
 
     def reduce_mean(self, dims=None):
@@ -634,6 +636,8 @@ class FullTensor:
             The reduced tensor.
 
         """
+        if dims is not None:
+            dims = tuple(np.atleast_1d(dims))
         return FullTensor(np.mean(self.data, dims, keepdims=True))
 
     def kron(self, tensor2):
-- 
2.43.0


From 7e8a5d6fbe5f05a2ac80c97fd745de9ab084098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 013/170] fix: FullTensor.eval_at_indices at several dimensions

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 0cba094..40004e8 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -331,7 +331,7 @@ class FullTensor:
         else:
             no_dims = tensap.fast_setdiff(np.arange(self.order), dims)
             indices = np.ravel_multi_index(
-                np.transpose(indices), [self.shape[i] for i in dims]
+                np.transpose(indices), [self.shape[i] for i in dims], order="F"
             )
             evaluations = self.matricize(dims).sub_tensor(indices, ":")
             evaluations = evaluations.reshape(
-- 
2.43.0


From cfc96c1e938c38c17ad4d15c08674a5260146ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 014/170] fix: FullTensor.matricize with all the dimensions as
 rows

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 40004e8..988bce0 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -1114,7 +1114,7 @@ class FullTensor:
 
         tensor = FullTensor(self)
         tensor = tensor.transpose(np.concatenate((dims1, dims2)))
-        tensor = tensor.reshape([np.prod(shape1), np.prod(shape2)])
+        tensor = tensor.reshape([int(np.prod(shape1)), int(np.prod(shape2))])
         return FullTensor(tensor)
 
     def outer_product_eval_diag(self, tensor2, dims1, dims2, diag=False):
-- 
2.43.0


From 4870b6841291602bcf6512e11f459d16b8bb52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 015/170] fix: FullTensor.kron of tensors with different orders

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 988bce0..103f9ef 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -679,7 +679,7 @@ class FullTensor:
             ),
             shape1 * shape2,
         )
-        return FullTensor(data, shape=self.shape * tensor2.shape)
+        return FullTensor(data)
 
     def orth(self, dim=None):
         """
-- 
2.43.0


From ea0adb76218e2e350748b3871ead1f02cf00c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 016/170] fix: DiagonalTensor.dot_with_rank_one_metric with non
 symmetric matrices (dot of canonical tensors)

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 5b2cb11..554f9a2 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -501,7 +501,7 @@ class DiagonalTensor:
 
         """
         if isinstance(matrix, list):
-            matrix = np.hstack([np.reshape(x, [-1, 1]) for x in matrix])
+            matrix = np.hstack([np.reshape(x, [-1, 1], order="F") for x in matrix])
         matrix = np.reshape(
             np.expand_dims(matrix, 1),
             (self.shape[0], y.shape[0], self.order),
-- 
2.43.0


From 0092c0195d6672182b9296c85a3adefba6a74090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 017/170] fix: DiagonalTensor.eval_diag with non contiguous
 dimensions

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 554f9a2..90e5efd 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -577,9 +577,7 @@ class DiagonalTensor:
             out = np.array(self.data)
         else:
             dims = np.sort(np.atleast_1d(dims))
-            rep = np.concatenate(
-                (np.arange(dims[0] + 1), np.arange(dims[-1] + 1, self.order))
-            )
+            rep = np.setdiff1d(range(self.order), dims[1:])
             out = deepcopy(self)
             out.shape = out.shape[rep]
             out.order = np.size(rep)
-- 
2.43.0


From a5c136c4ed550012be0bcc429038cdea073bb015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 018/170] fix: CanonicalTensor.eval_diag leaves the tensor
 unchanged and accepts a subset of the dimensions

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 8d9f6cd..af511da 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -345,7 +345,7 @@ class CanonicalTensor:
 
         out = self.space[dims[0]]
         for k in dims[1:]:
-            out *= self.space[k]
+            out = out * self.space[k]
 
         if is_none or dims.size == self.order:
             out = tensap.FullTensor(np.matmul(out, self.core.data))
@@ -354,7 +354,7 @@ class CanonicalTensor:
             core = deepcopy(self.core)
 
             space[dims[0]] = out
-            space = space[new_dims]
+            space = [space[k] for k in new_dims]
             core.shape = core.shape[new_dims]
             core.order = new_dims.size
             out = CanonicalTensor(space, core)
-- 
2.43.0


From f2060d12d705affd238a82a686cd7d411e064ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 019/170] fix: SparseTensor with one non-zero entry or one
 dimension

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 28c880b..f25c283 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -108,8 +108,8 @@ class SparseTensor:
             ), "data and indices must have the same number of elements."
         else:
             raise ValueError("Wrong input arguments.")
-        self.data = np.squeeze(self.data)
-        self.shape = np.squeeze(self.shape)
+        self.data = np.ravel(self.data)
+        self.shape = np.ravel(self.shape)
 
     @property
     def size(self):
@@ -387,13 +387,11 @@ class SparseTensor:
         for mu in dims:
             perm_dims = np.concatenate(([mu], np.setdiff1d(np.arange(out.order), mu)))
             out = out.transpose(perm_dims)
-            if out.order == 1:
-                out.shape[1] = 1
             ind = tensap.MultiIndices(out.indices.array[out.data != 0, :]).sub2ind(
                 out.shape
             )
             x1, x2 = np.unravel_index(
-                ind, [out.shape[0], np.prod(out.shape[1:])], order="F"
+                ind, [out.shape[0], np.prod(out.shape[1:], dtype=int)], order="F"
             )
             x2u, x2uind = np.unique(x2, return_inverse=True)
             s = coo_matrix(
@@ -405,7 +403,7 @@ class SparseTensor:
             out.shape[0] = matrices[k].shape[0]
             ind = np.ravel_multi_index(
                 (y1, np.reshape(x2u[y2], y1.shape)),
-                (out.shape[0], np.prod(out.shape[1:])),
+                (out.shape[0], np.prod(out.shape[1:], dtype=int)),
                 order="F",
             )
             out.indices = tensap.MultiIndices.ind2sub(out.shape, ind)
-- 
2.43.0


From 72db7b5491631279730d3a7db9332a899655c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 020/170] fix: SparseTensor.tensor_vector_product along all the
 dimensions or with null contractions

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index f25c283..b04b591 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -308,7 +308,7 @@ class SparseTensor:
             assert len(vectors) == self.order, "len(vectors) must be self.order."
             dims = np.arange(self.order)
         else:
-            dims = np.array(dims)
+            dims = np.array(np.atleast_1d(dims))
             if not isinstance(vectors, list):
                 vectors = [vectors]
             assert len(vectors) == dims.size, "len(vectors) must be equal to dims.size."
@@ -330,13 +330,14 @@ class SparseTensor:
             ]
             out.indices.array = out.indices.array[a != 0, :]
 
-            if out.indices.array.size != 0:
+            a = a[a != 0]
+            if out.indices.array.shape[1] == 0:
+                out.data = np.sum(a)
+            else:
                 out.indices.array, ind = np.unique(
                     out.indices.array, axis=0, return_inverse=True
                 )
-
-                a = a[a != 0]
-                out.data = np.bincount(ind, weights=a)
+                out.data = np.bincount(np.ravel(ind), weights=a)
 
             dims -= dims > dims[i]
 
-- 
2.43.0


From b590f52eeea3fe5dc0f84ba1e7d8ca8d8c9ab5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 021/170] fix: SparseTensor.tensor_diagonal_matrix_product

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index b04b591..5caac96 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -531,7 +531,7 @@ class SparseTensor:
                 len(matrices) == dims.size
             ), "len(matrices) must be equal to dims.size."
 
-        matrices = [tensap.FullTensor(np.diag(np.reshape(x, [-1]))) for x in matrices]
+        matrices = [np.diag(np.reshape(x, [-1])) for x in matrices]
         return self.tensor_matrix_product(matrices, dims)
 
     def dot(self, y):
-- 
2.43.0


From 5e1e362d8414b499c65f4d27bd485a0816799dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 022/170] fix: SparseTensor.tensor_matrix_product_eval_diag
 with integer matrices

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 5caac96..960d655 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -431,7 +431,7 @@ class SparseTensor:
         """
         y = matrices[0][:, self.indices.array[:, 0]]
         for k in np.arange(1, self.order):
-            y *= matrices[k][:, self.indices.array[:, k]]
+            y = y * matrices[k][:, self.indices.array[:, k]]
         return np.matmul(y, self.data)
 
     def transpose(self, dims):
-- 
2.43.0


From eef9554b58750c6d2939e5c8149f1c1e14d55738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 023/170] fix: DimensionTree.__eq__ of trees with different
 numbers of nodes at a level

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 15fc3ad..0228824 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -154,7 +154,7 @@ class DimensionTree:
                 nodes1 = self.nodes_with_level(level)
                 nodes2 = T.nodes_with_level(level)
                 if len(nodes1) != len(nodes2):
-                    return is_equal
+                    return False
                 dims1 = [self.dims[i] for i in nodes1 - 1]
                 dims2 = [T.dims[i] for i in nodes2 - 1]
                 for i, dim1 in enumerate(dims1):
-- 
2.43.0


From 8b92594b881a84203e6e3f12e00fd7c7bc36a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 024/170] fix: TreeBasedTensor.__add__ rejects trees with
 different node numbers instead of mixing the cores

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 0ca6ecb..3ca11f1 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -259,13 +259,17 @@ class TreeBasedTensor:
                 "Addition only implemented for two TreeBasedTensor."
             )
 
+        if (
+            not self.tree == arg.tree
+            or not np.array_equal(self.tree.adjacency_matrix, arg.tree.adjacency_matrix)
+            or not np.array_equal(self.tree.dim2ind, arg.tree.dim2ind)
+        ):
+            raise ValueError("Both tensors should have the same tree.")
+
         if not np.all(self.is_active_node == arg.is_active_node):
             self = self.activate_nodes(arg.active_nodes)
             arg = arg.activate_nodes(self.active_nodes)
 
-        if not self.tree == arg.tree:
-            raise ValueError("Both tensors should have the same tree.")
-
         tree = self.tree
         tensors = np.array(self.tensors)
 
-- 
2.43.0


From d699e263e1005f6e92c5cba8e18364159fd8011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 025/170] fix: MultiIndices comparisons leave their argument
 unchanged

---
 tensap/tools/multi_indices.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5138081..abd8ab3 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -77,15 +77,11 @@ class MultiIndices:
         if not isinstance(J, MultiIndices):
             ok = False
         else:
-            if J.cardinal() == 1:
-                J.array = np.tile(J.array, (self.cardinal(), 1))
             ok = np.all(self.array == J.array, axis=1)
         return ok
 
     def __le__(self, J):
         assert isinstance(J, MultiIndices), "Must provide a MultiIndices."
-        if J.cardinal() == 1:
-            J.array = np.tile(J.array, (self.cardinal(), 1))
         return np.all(self.array <= J.array, axis=1)
 
     def __add__(self, m):
-- 
2.43.0


From a607563e5957c3222434eff1bffad9a3b3945567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 026/170] fix: MultiIndices.__radd__ and __rsub__ return the
 result

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index abd8ab3..7ca4ee9 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -88,13 +88,13 @@ class MultiIndices:
         return MultiIndices(self.array + m)
 
     def __radd__(self, m):
-        self.array += m
+        return self + m
 
     def __sub__(self, m):
         return MultiIndices(self.array - m)
 
     def __rsub__(self, m):
-        self.array -= m
+        return MultiIndices(m - self.array)
 
     def cardinal(self):
         """
-- 
2.43.0


From 5b13da4ff356fadc6c041585c74124a110015a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 027/170] fix: MultiIndices with bounded norm, low order
 interactions and weighted hyperbolic cross stopped too early

---
 tensap/tools/multi_indices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 7ca4ee9..0b9a217 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -637,7 +637,7 @@ class MultiIndices:
                 M = ind.get_margin()
                 n = M.norm(p)
                 k = np.nonzero(n <= m)[0]
-                if np.all(np.logical_not(k)):
+                if len(k) == 0:
                     add = False
                 else:
                     j = np.argsort(n[k])
@@ -847,7 +847,7 @@ class MultiIndices:
             M = M.remove_indices(rem)
             n = np.delete(n, rem)
             k = np.nonzero(n <= m)[0]
-            if np.all(np.logical_not(k)):
+            if len(k) == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
@@ -882,7 +882,7 @@ class MultiIndices:
             M = ind.get_margin()
             n = np.prod((M.array + 1) ** w_k, axis=-1)
             k = np.nonzero(n <= p + 1)[0]
-            if np.all(np.logical_not(k)):
+            if len(k) == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
-- 
2.43.0


From da29e9ceca13c4d4d11b9e56208b0a519de188c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 028/170] fix: MultiIndices.product_set of one set of indices
 repeated d times

---
 tensap/tools/multi_indices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 0b9a217..67a9ce3 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -735,8 +735,11 @@ class MultiIndices:
 
         if d is None:
             d = len(L)
+        if np.all([np.ndim(x) == 0 and not isinstance(x, MultiIndices) for x in L]):
+            L = [L]
         if len(L) == 1 and d > 1:
             L = list(L) * d
+        L = list(L)
 
         for i in range(len(L)):
             if isinstance(L[i], MultiIndices):
-- 
2.43.0


From 37e05185a02ee5d97637ba0fc585ee5c1bafffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 029/170] fix: MultiIndices.sort in descending order

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 67a9ce3..32b0122 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -293,9 +293,9 @@ class MultiIndices:
                 ind = np.argsort(array[:, k])
             else:
                 ind = np.argsort(array[:, k], kind="mergesort")
-            if mode == "descend":
-                ind = np.flip(ind)
             array = array[ind, :]
+        if mode == "descend":
+            array = np.flip(array, axis=0)
         return MultiIndices(array.astype(int))
 
     def add_indices(self, J):
-- 
2.43.0


From cf59523c0ef0e9d8cfb440e0b3609fcef2d3bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 030/170] fix: quantiles of discrete variables with unsorted
 values or rounded cumulated probabilities

---
 tensap/functions/measures/discrete_random_variable.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index bc7a4a5..4f0da84 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -225,12 +225,15 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
         p = np.array(p)
         shape = p.shape
-        v = np.vstack(([-np.inf], np.reshape(self.values, (-1, 1))))
-        F = np.vstack(([0], np.reshape(self.probabilities, (-1, 1))))
+        values = np.ravel(self.values)
+        order = np.argsort(values, kind="stable")
+        v = np.vstack(([-np.inf], np.reshape(values[order], (-1, 1))))
+        F = np.cumsum(np.concatenate(([0], np.ravel(self.probabilities)[order])))
+        F[-1] = 1  # The sum of the probabilities, regardless of rounding errors
 
         M = p.size
         p = np.tile(np.reshape(p, (1, M)), (F.size, 1))
-        F = np.tile(np.reshape(np.cumsum(F), (-1, 1)), (1, M))
+        F = np.tile(np.reshape(F, (-1, 1)), (1, M))
         return np.reshape(
             v[np.nonzero(np.cumsum(np.transpose(F >= p), 1) == 1)[1]], shape
         )
-- 
2.43.0


From 25c534ea33a9f78c8975de70475d768f67a5487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 031/170] fix: sampling of discrete variables with values in
 R^d

---
 tensap/functions/measures/discrete_random_variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index 4f0da84..d6ee516 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -288,4 +288,5 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
 
         ind = np.random.choice(len(self.probabilities), int(n), p=self.probabilities)
-        return np.squeeze(self.values[ind.astype(int), :], 1)
+        x = self.values[ind.astype(int), :]
+        return np.squeeze(x, 1) if x.shape[1] == 1 else x
-- 
2.43.0


From c502a25a1c0a32f12585b842644428f65d4f556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 032/170] fix: sampling of discrete measures in R^d

---
 tensap/functions/measures/discrete_measure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/discrete_measure.py b/tensap/functions/measures/discrete_measure.py
index 852ffd3..10835a4 100644
--- a/tensap/functions/measures/discrete_measure.py
+++ b/tensap/functions/measures/discrete_measure.py
@@ -166,4 +166,5 @@ class DiscreteMeasure(tensap.Measure):
             self.weights / np.sum(self.weights),
         )
         ind = Y.icdf(np.random.rand(n)).astype(int)
-        return np.squeeze(self.values[ind, :], 1)
+        x = self.values[ind, :]
+        return np.squeeze(x, 1) if x.shape[1] == 1 else x
-- 
2.43.0


From 7893668cdd36c3d2a9d087a407fdad434531bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 033/170] fix: equality of random variables with array-valued
 parameters

---
 tensap/functions/measures/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index fccc011..5e61ca3 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -75,7 +75,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
             param_1 = self.get_parameters()
             param_2 = rv_2.get_parameters()
             for ind in zip(param_1, param_2):
-                is_equal = is_equal and (ind[0] == ind[1])
+                is_equal = is_equal and np.array_equal(ind[0], ind[1])
         return is_equal
 
     def __neq__(self, rv_2):
-- 
2.43.0


From 6fc4d867be62696de7440206b51cacb7155dfc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 034/170] fix: stored moments must be indexed by their order

---
 tensap/functions/measures/random_variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index 5e61ca3..aaf2db7 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -396,7 +396,8 @@ class RandomVariable(tensap.ProbabilityMeasure):
         if nargout == 1:
             return out
         X = deepcopy(self)
-        X.moments = out
+        if np.size(X.moments) - 1 < np.max(ind):
+            X.moments = self.moment(np.arange(np.max(ind) + 1))
         return out, X
 
     def mean(self):
-- 
2.43.0


From 793e30bebe7c24efd79d89846181ded73117b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 035/170] fix: cdf of empirical variables with the bandwidth of
 their pdf

---
 tensap/functions/measures/empirical_random_variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 941f106..691fa4d 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -159,7 +159,10 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         return self.sample, self.bandwidth
 
     def cdf(self, x):
-        kde = scipy.stats.gaussian_kde(self.sample, self.bandwidth)
+        # The bandwidth is relative to the standard deviation in gaussian_kde
+        kde = scipy.stats.gaussian_kde(
+            self.sample, self.bandwidth / np.std(self.sample, ddof=1)
+        )
         return np.vectorize(lambda z: kde.integrate_box_1d(-np.inf, z))(x)
 
     def icdf(self, x, *args, **kwargs):
-- 
2.43.0


From c5ef389bd1df27cbd500dbf90b148a384d40e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 036/170] fix: infinite recursion in icdf of empirical
 variables

---
 tensap/functions/measures/empirical_random_variable.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 691fa4d..dbeb0fd 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -184,7 +184,12 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
 
         """
         # TODO Optimize the method
-        sup = self.truncated_support()
+        # The cdf is equal to 0 (resp. 1) up to machine precision before (resp.
+        # after) these bounds
+        sup = [
+            np.min(self.sample) - 40 * self.bandwidth,
+            np.max(self.sample) + 40 * self.bandwidth,
+        ]
         return np.vectorize(
             lambda p: scipy.optimize.brentq(
                 lambda y: self.cdf(y) - p, sup[0], sup[1], *args, **kwargs
-- 
2.43.0


From b7dcdbc8f472c574dcfd8079362b5119be11a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 037/170] fix: transfer between empirical variables with
 samples of different sizes

---
 tensap/functions/measures/empirical_random_variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index dbeb0fd..a6b19a6 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -91,6 +91,7 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         # If Y is the standard random variable associated to X
         if (
             isinstance(Y, (EmpiricalRandomVariable, tensap.EmpiricalRandomVariable))
+            and np.size(Y.sample) == np.size(self.sample)
             and np.linalg.norm(
                 Y.sample - (self.sample - np.mean(self.sample)) / np.std(self.sample)
             )
-- 
2.43.0


From 67c593b3adefe43b6accd885f57f706fa7254409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 038/170] fix: equality of product measures with different
 numbers of measures

---
 tensap/functions/measures/product_measure.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/product_measure.py b/tensap/functions/measures/product_measure.py
index f3630ba..cc937d6 100644
--- a/tensap/functions/measures/product_measure.py
+++ b/tensap/functions/measures/product_measure.py
@@ -68,7 +68,13 @@ class ProductMeasure(tensap.Measure):
         )
 
     def __eq__(self, measure_2):
-        return np.all([x == y for x, y in zip(self.measures, measure_2.measures)])
+        return (
+            isinstance(measure_2, ProductMeasure)
+            and len(self.measures) == len(measure_2.measures)
+            and bool(
+                np.all([x == y for x, y in zip(self.measures, measure_2.measures)])
+            )
+        )
 
     def is_discrete(self):
         return np.all([x.is_discrete() for x in self.measures])
-- 
2.43.0


From 8b13bffc2bb264a4a86d0265235ea0e49caee69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 039/170] fix: mean, std and variance of random vectors with
 discrete components

---
 tensap/functions/measures/random_vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 08d2edf..a3f1509 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -301,7 +301,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The mean of the random variable.
 
         """
-        return np.atleast_1d([x.mean() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.mean()) for x in self.random_variables])
 
     def std(self):
         """
@@ -313,7 +313,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The standard deviation of the random variable.
 
         """
-        return np.atleast_1d([x.std() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.std()) for x in self.random_variables])
 
     def variance(self):
         """
@@ -325,7 +325,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The variance of the random variable.
 
         """
-        return np.atleast_1d([x.variance() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.variance()) for x in self.random_variables])
 
     def transfer(self, Y, x):
         """
-- 
2.43.0


From c1e2eda1928d882fe0961cd735fee5994efdc8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 040/170] fix: random_multi_indices must not modify its
 argument

---
 tensap/functions/measures/random_multi_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_multi_indices.py b/tensap/functions/measures/random_multi_indices.py
index f8eff61..a059149 100644
--- a/tensap/functions/measures/random_multi_indices.py
+++ b/tensap/functions/measures/random_multi_indices.py
@@ -44,7 +44,7 @@ def random_multi_indices(shape):
     order = len(shape)
 
     if np.all([isinstance(x, (list, np.ndarray)) for x in shape]):
-        ind = shape
+        ind = list(shape)
     else:
         ind = []
         for dim in range(order):
-- 
2.43.0


From 120ffef934cd028f52d1924b1402af859104df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 041/170] fix: iso-probabilistic grids of vectors of size one

---
 tensap/functions/measures/random_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index a3f1509..f357a17 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -167,7 +167,8 @@ class RandomVector(tensap.ProbabilityMeasure):
         if np.size(n) == 1 and n < 1:
             n = int(np.ceil(n ** (-1 / d)))
 
-        if np.size(n) != d:
+        n = np.ravel(n)
+        if n.size != d:
             n = np.full(d, n)
 
         b = [x.iso_probabilistic_grid(y) for x, y in zip(self.random_variables, n)]
-- 
2.43.0


From 9c4c27b253c3db921761ac25d996e26fa4b5ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 042/170] fix: iso-probabilistic grids from a list of one
 number of points

---
 tensap/functions/measures/random_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index f357a17..e4349bb 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -164,8 +164,8 @@ class RandomVector(tensap.ProbabilityMeasure):
         ), "The method only works for independent copulas."
 
         d = self.size
-        if np.size(n) == 1 and n < 1:
-            n = int(np.ceil(n ** (-1 / d)))
+        if np.size(n) == 1 and np.min(n) < 1:
+            n = int(np.ceil(np.min(n) ** (-1 / d)))
 
         n = np.ravel(n)
         if n.size != d:
-- 
2.43.0


From 3ee4f0191394d286571fa066f73fb655c4df4a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 043/170] fix: quantiles of empirical variables of probability
 1 up to machine precision

---
 tensap/functions/measures/empirical_random_variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index a6b19a6..ebe985c 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -191,6 +191,7 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
             np.min(self.sample) - 40 * self.bandwidth,
             np.max(self.sample) + 40 * self.bandwidth,
         ]
+        x = np.clip(x, *self.cdf(sup))
         return np.vectorize(
             lambda p: scipy.optimize.brentq(
                 lambda y: self.cdf(y) - p, sup[0], sup[1], *args, **kwargs
-- 
2.43.0


From f7cfd4b8061b7e221d32f7a9b28e14f80e05a3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 044/170] fix: derivatives of polynomials orthonormal for a
 measure whose mass is not one

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 0e19241..1fd4e54 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -178,10 +178,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out = np.zeros((x.size, max_ind + 1))
             out[:, 0] = 0
             if max_ind > 0:
-                if k == 1:
-                    out[:, 1] = 1 / np.sqrt(b[1])
-                else:
-                    out[:, 1] = 0
+                out[:, 1] = k * out_0[:, 0] / np.sqrt(b[1])
             for deg in np.arange(2, max_ind + 1):
                 out[:, deg] = (
                     k * out_0[:, deg - 1]
-- 
2.43.0


From 70ea3e5934e9b8199bf40bfae0b67019a5891516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 045/170] fix: coefficients, moments and decomposition of one
 for a measure whose mass is not one

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 1fd4e54..f08718f 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -56,9 +56,8 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
 
     def __eq__(self, poly_2):
         if not isinstance(poly_2, OrthonormalPolynomials):
@@ -109,7 +108,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
         ):
             out = np.zeros(ind.shape[0])
             if ind.shape[1] == 1:
-                out[ind[:, 0] == 0] = 1
+                out[ind[:, 0] == 0] = np.sqrt(self.measure.mass())
             else:
                 out[ind[:, 0] == ind[:, 1]] = 1
         else:
@@ -138,6 +137,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
                     - np.sqrt(b[deg]) * coef[deg - 1, :]
                 ) / np.sqrt(b[deg + 1])
 
+        coef /= np.sqrt(self.measure.mass())
         return coef[ind, :]
 
     def polyval(self, ind, x):
-- 
2.43.0


From f62fd58fb801943929832208a949b8f8dda5dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 046/170] fix: equality of orthonormal polynomials without
 precomputed coefficients

---
 .../functions/polynomials/orthonormal_polynomials.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index f08718f..1894547 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -64,15 +64,17 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out = False
         else:
             out = (
-                self.measure == poly_2.measure
+                type(self) is type(poly_2)
+                and self.measure == poly_2.measure
                 and np.array_equal(
-                    self._recurrence_coefficients, poly_2._recurrence_coefficients
+                    getattr(self, "_recurrence_coefficients", None),
+                    getattr(poly_2, "_recurrence_coefficients", None),
                 )
                 and np.array_equal(
-                    self._orthogonal_polynomials_norms,
-                    poly_2._orthogonal_polynomials_norms,
+                    getattr(self, "_orthogonal_polynomials_norms", None),
+                    getattr(poly_2, "_orthogonal_polynomials_norms", None),
                 )
-                and self.is_orthonormal == poly_2.is_orthonormal
+                and self.is_orthonormal() == poly_2.is_orthonormal()
             )
         return out
 
-- 
2.43.0


From 6c59469c913437f14a7ae41c6ea0be5b8ee90cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 047/170] fix: normalisation of shifted polynomials for a
 measure whose mass depends on the scaling

---
 .../polynomials/orthonormal_polynomials.py      | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 1894547..7f9d074 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -300,6 +300,8 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         self.polynomials = polynomials
         self.shift = shift
         self.scaling = scaling
+        # Different from one only if the shift changes the mass of the measure
+        self.normalization = np.sqrt(polynomials.measure.mass() / self.measure.mass())
 
     def __repr__(self):
         return "<{}>".format(self.__class__.__name__)
@@ -308,9 +310,8 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
 
     def __eq__(self, poly_2):
         if not isinstance(poly_2, ShiftedOrthonormalPolynomials):
@@ -362,15 +363,19 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
 
     def polyval(self, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.polyval(ind, x)
+        return self.normalization * self.polynomials.polyval(ind, x)
 
     def d_polyval(self, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.d_polyval(ind, x) / self.scaling
+        return self.normalization * self.polynomials.d_polyval(ind, x) / self.scaling
 
     def dn_polyval(self, n, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.dn_polyval(n, ind, x) / (self.scaling**n)
+        return (
+            self.normalization
+            * self.polynomials.dn_polyval(n, ind, x)
+            / (self.scaling**n)
+        )
 
     def random(self, ind, n=1, measure=None):
         """
-- 
2.43.0


From 8b6483d941b9ac02dfea4f816fecb2661b6131c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 048/170] fix: means and moments of shifted polynomials with
 respect to a measure

---
 .../polynomials/orthonormal_polynomials.py      | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 7f9d074..09eed40 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -348,18 +348,11 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         """
         return self.shift + self.scaling * self.polynomials.truncated_domain()
 
-    def mean(self, ind, *measure):
-        return self.polynomials.mean(ind, *measure)
-
-    def moment(self, ind, *measure):
-        if measure:
-            if measure[0] == self.measure:
-                measure = ()
-            else:
-                measure = tuple(
-                    [measure[0].shift(-self.shift / self.scaling, 1 / self.scaling)]
-                )
-        return self.polynomials.moment(ind, *measure)
+    def moment(self, ind, measure=None):
+        if measure is None or measure == self.measure:
+            factor = self.normalization ** (np.atleast_2d(ind).shape[1] - 2)
+            return factor * self.polynomials.moment(ind)
+        return super().moment(ind, measure)
 
     def polyval(self, ind, x):
         x = (x - self.shift) / self.scaling
-- 
2.43.0


From 90637bda54ff6382e5d975a9e42aa71df8486c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 049/170] fix: empirical polynomials associated with a sample

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 09eed40..1360960 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -629,7 +629,7 @@ class EmpiricalPolynomials(OrthonormalPolynomials):
             self.measure = sample.get_standard_random_variable()
         else:
             # Standardization of the sample
-            x = np.reshape(self.sample, [-1, 1])
+            x = np.reshape(sample, [-1, 1])
             x = (x - np.tile(np.mean(x, 0), (x.shape[0], 1))) / np.tile(
                 np.std(x, 0), (x.shape[0], 1)
             )
-- 
2.43.0


From 3b190366ff8df8a68c7ae8ff3dfd82f1a3017bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 050/170] fix: coefficients of derivatives of order higher than
 the degree

---
 tensap/functions/polynomials/polynomials.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index db54d37..80db2ed 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -95,6 +95,9 @@ class UnivariatePolynomials(ABC):
             of order contained in ind.
 
         """
+        if n > np.max(ind):
+            return np.zeros((len(ind), 1))
+
         coef = np.prod(
             np.tile(np.arange(np.max(ind) - n + 1), (n, 1))
             + np.tile(
@@ -103,8 +106,6 @@ class UnivariatePolynomials(ABC):
             0,
         )
         coef = self.poly_coeff(ind)[:, n:] * np.tile(coef, (len(ind), 1))
-        if coef.size == 0:
-            coef = np.zeros(len(ind))
         return coef
 
     def d_polyval(self, ind, x):
-- 
2.43.0


From 660c2b8ae2a54fff5eabc8a220ef0a2884f725b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 051/170] fix: moments of polynomials with respect to a
 discrete measure

---
 tensap/functions/polynomials/polynomials.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index 80db2ed..679ae8f 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -224,7 +224,10 @@ class UnivariatePolynomials(ABC):
         max_deg = np.max(np.sum(ind, 1))  # Maximum degree of the product
         nb_pts = int(np.ceil((max_deg + 1) / 2))  # Number of points
 
-        G = measure.gauss_integration_rule(nb_pts)
+        if isinstance(measure, (tensap.DiscreteMeasure, tensap.DiscreteRandomVariable)):
+            G = measure.integration_rule()
+        else:
+            G = measure.gauss_integration_rule(nb_pts)
         for i in range(ind.shape[0]):
             # Creation of the function to integrate
             def poly(x):
-- 
2.43.0


From 8e6dc8924dd7d9c2a66580d9685efc2e24fd21d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 052/170] fix: moments of high order of discrete variables

---
 tensap/functions/measures/random_variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index aaf2db7..3c79f8e 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -389,7 +389,10 @@ class RandomVariable(tensap.ProbabilityMeasure):
         else:
             out = np.zeros(np.size(ind))
             nb_pts = int(np.ceil((np.max(ind) + 1) / 2))
-            G = self.gauss_integration_rule(nb_pts)
+            if isinstance(self, tensap.DiscreteRandomVariable):
+                G = self.integration_rule()
+            else:
+                G = self.gauss_integration_rule(nb_pts)
             for nb, ind_loc in enumerate(ind):
                 out[nb] = G.integrate(lambda x: x**ind_loc)
 
-- 
2.43.0


From c167d622f74647bf9f8239a02ee587c44b94cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 053/170] fix: random evaluations of shifted polynomials with a
 given measure

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 1360960..250f91a 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -395,9 +395,7 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
             The randomly drawn input points.
 
         """
-        fx, x = self.polynomials.random(ind, n, measure)
-        x = self.shift + self.scaling * x
-        return fx, x
+        return OrthonormalPolynomials.random(self, ind, n, measure)
 
     def roots(self, n):
         """
-- 
2.43.0


From 746add1225072d79c60b257e5bf2764ffa811bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 054/170] fix: moments of high degree with respect to an
 empirical measure

---
 tensap/functions/polynomials/polynomials.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index 679ae8f..846bdc2 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -226,6 +226,8 @@ class UnivariatePolynomials(ABC):
 
         if isinstance(measure, (tensap.DiscreteMeasure, tensap.DiscreteRandomVariable)):
             G = measure.integration_rule()
+        elif isinstance(measure, tensap.EmpiricalRandomVariable):
+            G = measure.integration_rule(nb_pts)
         else:
             G = measure.gauss_integration_rule(nb_pts)
         for i in range(ind.shape[0]):
-- 
2.43.0


From c1341ee966f6b2b14261aa65841b9f379fc9d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 055/170] fix: ordering of two-dimensional coefficients given
 to FunctionalBasisArray

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index bbc4228..020a930 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -74,7 +74,7 @@ class FunctionalBasisArray(tensap.Function):
         self.shape = np.atleast_1d(shape)
         self.output_shape = self.shape
         self.data = np.reshape(
-            self.data, np.concatenate(([basis.cardinal()], self.shape))
+            self.data, np.concatenate(([basis.cardinal()], self.shape)), order="F"
         )
 
     def __add__(self, g):
-- 
2.43.0


From 1f6070a6df4863b68dc09e3cba9ea256542e3a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 056/170] fix: conditional expectation of functional basis
 arrays

---
 tensap/approximation/bases/functional_basis_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 020a930..cd2ec74 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -364,7 +364,9 @@ class FunctionalBasisArray(tensap.Function):
                 self.data, [self.basis.cardinal(), np.prod(self.shape)], order="F"
             ),
         )
-        f.data = np.reshape(f.data, (f.data.shape[0], f.shape), order="F")
+        f.data = np.reshape(
+            f.data, np.concatenate(([f.data.shape[0]], f.shape)), order="F"
+        )
         f.basis = h.basis
         return f
 
-- 
2.43.0


From e7a9f8b6b20aac408c577cb1818a942ee14a0244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 057/170] fix: conditional expectation with respect to all the
 variables

---
 .../bases/sparse_tensor_product_functional_basis.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 66bfa28..7ca0dfe 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -205,7 +205,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         else:
             h = tensap.FunctionalBasisArray(
-                np.eye(self.cardinal()), self, [self.cardinal(), 1]
+                np.eye(self.cardinal()), self, self.cardinal()
             )
         return h
 
-- 
2.43.0


From 0a13b777cdbe0a666e5d0d750f01d64d20628e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 058/170] fix: conditional expectation with respect to
 variables given by booleans

---
 .../bases/sparse_tensor_product_functional_basis.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 7ca0dfe..196f90d 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -174,8 +174,9 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
     def conditional_expectation(self, dims, *args):
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if dims.dtype == bool:
             dims = np.nonzero(dims)[0]
+        dims = dims.astype(int)
 
         dims_C = np.setdiff1d(range(self.ndim()), dims)
 
-- 
2.43.0


From 833367cee80d2622d3f00b0408613e4c034ee30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 059/170] fix: variance of conditional expectations with
 respect to variables given by booleans

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index cd2ec74..97212a1 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -392,7 +392,7 @@ class FunctionalBasisArray(tensap.Function):
         v = np.zeros((np.shape(alpha)[0], np.prod(self.shape)))
         for i in range(np.shape(alpha)[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if u.dtype == bool:
                 u = np.nonzero(u)[0]
 
             if np.size(u) == 0:
-- 
2.43.0


From e1a03eb4da6a1c2122aee0a3ddc33ea717284cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 060/170] fix: projection of functional basis arrays

---
 tensap/approximation/bases/functional_basis_array.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 97212a1..7ed92ed 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -610,6 +610,8 @@ class FunctionalBasisArray(tensap.Function):
         if indices is None:
             if isinstance(basis, tensap.SparseTensorProductFunctionalBasis):
                 indices = basis.indices
+            elif isinstance(basis, tensap.FullTensorProductFunctionalBasis):
+                indices = tensap.MultiIndices.bounded_by(basis.bases.cardinals() - 1)
             else:
                 raise ValueError("Must specify a MultiIndices.")
 
@@ -619,12 +621,11 @@ class FunctionalBasisArray(tensap.Function):
         ):
             d = np.zeros((basis.cardinal(), np.prod(self.shape)))
             _, ia, ib = self.basis.indices.intersect_indices(indices)
-            d[ib, :] = self.data[ia, :]
-            if np.ndim(self.data) != np.ndim(d):
-                d = np.reshape(d, [basis.cardinal(), self.shape], order="F")
+            data = np.reshape(self.data, [self.basis.cardinal(), -1], order="F")
+            d[ib, :] = data[ia, :]
 
             if isinstance(basis, tensap.FullTensorProductFunctionalBasis):
-                H = tensap.FullTensorProductIntegrationRule(basis.bases)
+                H = tensap.FullTensorProductFunctionalBasis(basis.bases)
             elif isinstance(basis, tensap.SparseTensorProductFunctionalBasis):
                 H = tensap.SparseTensorProductFunctionalBasis(basis.bases, indices)
             g = FunctionalBasisArray(d, H, self.shape)
-- 
2.43.0


From c6bcde89744861aa0006aea2ccad07990130b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 061/170] fix: random evaluations of bases associated with a
 product of probability measures

---
 tensap/approximation/bases/functional_basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 727db80..e8de3d7 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -81,6 +81,8 @@ class FunctionalBasis:
         """
         if measure is None:
             measure = self.measure
+        if isinstance(measure, tensap.ProductMeasure):
+            measure = measure.random_vector()
         if not isinstance(measure, tensap.ProbabilityMeasure):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
-- 
2.43.0


From 389f8c0c189d0e17fd459eb4ac924e343784e4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 062/170] fix: projections of functions given by their values

---
 tensap/approximation/bases/functional_basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index e8de3d7..a0f9ac6 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -293,7 +293,7 @@ class FunctionalBasis:
         try:
             y = fun(G.points)
         except Exception:
-            pass
+            y = fun
 
         A = self.eval(G.points)
         W = diags(np.sqrt(G.weights))
@@ -331,7 +331,7 @@ class FunctionalBasis:
         try:
             y = fun(G.points)
         except Exception:
-            pass
+            y = fun
 
         u = np.matmul(np.transpose(A), W.dot(y))
 
-- 
2.43.0


From e0391122c44a346ca67adf58b700d3efa2a1dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 063/170] fix: derivatives and Jacobian of sub-functional bases

---
 tensap/approximation/bases/sub_functional_basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 4fceb56..48c9669 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -140,7 +140,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             self.basis of degrees in self.indices at points x.
 
         """
-        return np.matmul(self.underlying_basis.eval_derivative(x, n), self.basis)
+        return np.matmul(self.underlying_basis.eval_derivative(n, x), self.basis)
 
     def derivative(self, n):
         """
@@ -180,7 +180,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
 
         """
         jac = self.underlying_basis.eval_jacobian(x)
-        out = np.einsum("ij,ajk", self.basis, jac)
+        out = np.einsum("ji,ajk->aik", self.basis, jac)
         return out
 
     def mean(self):
-- 
2.43.0


From 65a50c2c1394d692e879312f96b045a084a62e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 064/170] fix: creation of empty sub-functional bases

---
 tensap/approximation/bases/sub_functional_basis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 48c9669..49f246a 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -72,9 +72,10 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             if (
                 underlying_basis.is_orthonormal
                 and np.linalg.norm(
-                    np.matmul(np.transpose(basis), basis) - np.eye(basis.shape[1])
+                    np.matmul(np.transpose(self.basis), self.basis)
+                    - np.eye(self.basis.shape[1])
                 )
-                / np.sqrt(basis.shape[1])
+                / np.sqrt(max(self.basis.shape[1], 1))
                 < 1e-15
             ):
                 self.is_orthonormal = True
-- 
2.43.0


From af1f7eb7d5e0c4f9713152a0619b4b633a9a4cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 065/170] fix: mean of sub-functional bases with respect to a
 given measure

---
 tensap/approximation/bases/sub_functional_basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 49f246a..91c387b 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -184,8 +184,8 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
         out = np.einsum("ji,ajk->aik", self.basis, jac)
         return out
 
-    def mean(self):
-        return np.matmul(self.underlying_basis.mean(), self.basis)
+    def mean(self, *args):
+        return np.matmul(self.underlying_basis.mean(*args), self.basis)
 
     def gram_matrix(self):
         return self.basis.T @ self.underlying_basis.gram_matrix() @ self.basis
-- 
2.43.0


From 960990deedce08ea3ec9810c643f4363f2ea18bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 066/170] fix: cardinal and dimension of delta functional bases

---
 tensap/approximation/bases/delta_functional_basis.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/delta_functional_basis.py b/tensap/approximation/bases/delta_functional_basis.py
index 99dce90..98e784e 100755
--- a/tensap/approximation/bases/delta_functional_basis.py
+++ b/tensap/approximation/bases/delta_functional_basis.py
@@ -77,14 +77,13 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
         elif values is not None:
             self.measure = tensap.DiscreteMeasure(values)
 
-        if measure is not None:
-            self.input_dimension = measure.ndim()
+        if self.measure is not None:
+            self.input_dimension = self.measure.ndim()
         else:
             self.input_dimension = 1
 
     def eval(self, x):
         x = np.atleast_1d(x)
-        print(x)
         dim = self.values.shape[0]
         out = np.zeros((np.shape(x)[0], dim))
         for mu in range(dim):
@@ -99,4 +98,4 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
         return self.input_dimension
 
     def cardinal(self):
-        return self.values.shape[1]
+        return self.values.shape[0]
-- 
2.43.0


From d51ea6844a28d63657d7ceb86d8f8fa0dcfb9f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 067/170] fix: mean of piecewise polynomial bases

---
 .../bases/piecewise_polynomial_functional_basis.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
index 51c855c..188ea21 100644
--- a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
+++ b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
@@ -140,7 +140,7 @@ class PiecewisePolynomialFunctionalBasis(tensap.FunctionalBasis):
         p2 = self.points[1:]
         h = p2 - p1
         m = np.zeros(self.cardinal())
-        q = np.cumsum(np.concatenate((0, self.p[:-1] + 1)))
+        q = np.cumsum(np.concatenate(([0], self.p[:-1] + 1)))
         m[q] = np.sqrt(h)
         return m
 
-- 
2.43.0


From d39f21518c5d4edfb0f4997793e5df8c702eebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 068/170] fix: Kronecker product of polynomial bases

---
 tensap/approximation/bases/polynomial_functional_basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 97f81fc..2157c5d 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -121,7 +121,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
 
     def kron(self, q):
         m = np.max(self.indices) + np.max(q.indices)
-        b = PolynomialFunctionalBasis(self.basis, range(m))
+        b = PolynomialFunctionalBasis(self.basis, range(m + 1))
         b.measure = self.measure
 
         def fun(x):
@@ -136,8 +136,8 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             )
 
         measure = b.measure
-        int_rule = measure.gauss_integration_rule(2 * m)
-        return tensap.SubFunctionalBasis(b, self.projection(fun, int_rule).data)
+        int_rule = measure.gauss_integration_rule(m + 1)
+        return tensap.SubFunctionalBasis(b, b.projection(fun, int_rule).data)
 
     def derivative(self, k, measure=None):
         """
-- 
2.43.0


From 437a976262f49e5bbbc89f9aedf083f14b97be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 069/170] fix: derivatives of high order of polynomial bases

---
 tensap/approximation/bases/polynomial_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 2157c5d..2e3dce3 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -168,7 +168,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             assert self.measure is not None, "Must specify a Measure."
             measure = self.measure
 
-        nb_pts = int(np.ceil(np.max(self.indices) - (k - 1) / 2))
+        nb_pts = int(max(np.ceil(np.max(self.indices) - (k - 1) / 2), 1))
         int_rule = measure.gauss_integration_rule(nb_pts)
 
         def fun(x):
-- 
2.43.0


From bda0ae45ee43eacd1a7e03c35f792507768ed766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 070/170] fix: dimension of bases of dilated B-splines

---
 tensap/approximation/bases/BSplines_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index 8a7df1e..da0cf3b 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -376,7 +376,7 @@ class DilatedBSplinesFunctionalBasis(tensap.FunctionalBasis):
     def cardinal(self):
         return self.indices[0].size
 
-    def ndims(self):
+    def ndim(self):
         return 1
 
     def eval_derivative(self, k, x):
-- 
2.43.0


From ff718c0c03ce37304eb5802fab30a8739f9eafba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 071/170] fix: measure of functional bases after the selection
 or permutation of some of them

---
 tensap/approximation/bases/functional_bases.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 1739018..3ebf323 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -194,6 +194,7 @@ class FunctionalBases:
         """
         out = deepcopy(self)
         out.bases = np.delete(self.bases, ind)
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def keep_bases(self, ind):
@@ -212,7 +213,8 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = out.bases[ind]
+        out.bases = np.atleast_1d(out.bases[ind])
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def transpose(self, perm):
@@ -232,6 +234,7 @@ class FunctionalBases:
         """
         out = deepcopy(self)
         out.bases = out.bases[perm]
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def __eq__(self, bases_2):
-- 
2.43.0


From 74f4ef100385c96ac21db9e3e7a67748dd3b6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 072/170] fix: Kronecker product of functional bases

---
 tensap/approximation/bases/functional_bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 3ebf323..d549998 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -174,7 +174,7 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = [x.kron(y) for x, y in zip(self.bases, g.bases)]
+        out.bases = np.array([x.kron(y) for x, y in zip(self.bases, g.bases)])
         return out
 
     def remove_bases(self, ind):
-- 
2.43.0


From 4a4d8ea7f6c140103e4b0303584b0b5b3cd4528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 073/170] fix: equality of functional bases with different
 lengths

---
 tensap/approximation/bases/functional_bases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index d549998..321dce5 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -242,7 +242,8 @@ class FunctionalBases:
             out = False
         else:
             out = (
-                np.all([x == y for x, y in zip(self.bases, bases_2.bases)])
+                len(self) == len(bases_2)
+                and bool(np.all([x == y for x, y in zip(self.bases, bases_2.bases)]))
                 and self.measure == bases_2.measure
             )
         return out
-- 
2.43.0


From a521f897a2a22f8b8a55783482d689bed39f7fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 074/170] fix: random evaluations and random vector of
 functional bases with probability measures

---
 tensap/approximation/bases/functional_bases.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 321dce5..3bb0832 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -402,6 +402,8 @@ class FunctionalBases:
 
         """
         if measure is not None:
+            if isinstance(measure, tensap.ProductMeasure):
+                measure = measure.random_vector()
             assert isinstance(
                 measure, tensap.ProbabilityMeasure
             ), "Must provide a ProbabilityMeasure."
@@ -428,7 +430,9 @@ class FunctionalBases:
         """
         if isinstance(self.measure, tensap.RandomVector):
             measure = self.measure
-        elif isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif isinstance(self.measure, tensap.ProductMeasure) and np.all(
+            [isinstance(x, tensap.ProbabilityMeasure) for x in self.measure.measures]
+        ):
             measure = self.measure.random_vector()
         else:
             measure = None
-- 
2.43.0


From 74db15339a1773c02471fbeeab182fcd3a5a7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 075/170] fix: measure of full tensor product bases after the
 selection or permutation of bases

---
 .../bases/full_tensor_product_functional_basis.py              | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 41e62db..bcd73de 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -116,6 +116,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        out.measure = out.bases.measure
         return out
 
     def keep_bases(self, ind):
@@ -135,6 +136,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.measure = out.bases.measure
         return out
 
     def remove_mapping(self, ind):
@@ -162,6 +164,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.measure = out.bases.measure
         return out
 
     def mean(self, *args):
-- 
2.43.0


From ea97caaae663993d4130f7903d6318d3159e1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 076/170] fix: measure and indices of sparse tensor product
 bases after the selection or permutation of bases

---
 .../bases/sparse_tensor_product_functional_basis.py         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 196f90d..d88c48e 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -117,6 +117,8 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        out.measure = out.bases.measure
+        out.indices = self.indices.remove_dims(ind)
         return out
 
     def keep_bases(self, ind):
@@ -136,6 +138,8 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.measure = out.bases.measure
+        out.indices = self.indices.keep_dims(np.atleast_1d(ind))
         return out
 
     def remove_mapping(self, ind):
@@ -163,6 +167,8 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.measure = out.bases.measure
+        out.indices = tensap.MultiIndices(self.indices.array[:, perm])
         return out
 
     def mean(self, *args):
-- 
2.43.0


From d6492e267d64f2b85b69bd861cf5b52fc99a75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 077/170] fix: ordering of the mean of full tensor product
 bases

---
 .../approximation/bases/full_tensor_product_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index bcd73de..9c445fe 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -170,7 +170,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
     def mean(self, *args):
         H = self.bases.mean(None, *args)
         H = tensap.CanonicalTensor([np.reshape(x, [-1, 1]) for x in H], [1])
-        return np.ravel(H.full().numpy())
+        return np.ravel(H.full().numpy(), order="F")
 
     def conditional_expectation(self, dims, *args):
         ind = tensap.MultiIndices.bounded_by(self.bases.cardinals() - 1)
-- 
2.43.0


From 8028c9156b7500ead50f88ab173924aa5b42c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 078/170] fix: orthonormality of orthonormalized full tensor
 product bases

---
 .../approximation/bases/full_tensor_product_functional_basis.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 9c445fe..6e5c1c1 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -97,6 +97,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
     def orthonormalize(self):
         out = deepcopy(self)
         out.bases = out.bases.orthonormalize()
+        out.is_orthonormal = True
         return out
 
     def remove_bases(self, ind):
-- 
2.43.0


From cb7f71157597b48129b4cc98ae8b7883246aedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 079/170] fix: tensor product projection on grids with
 different numbers of points

---
 .../approximation/bases/full_tensor_product_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 6e5c1c1..c9990c1 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -239,7 +239,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         u = fun.eval_on_tensor_grid(I0.points)
         output = {"number_of_evaluations": u.storage()}
-        Hx = self.bases.eval(np.hstack(I0.points.grids))
+        Hx = self.bases.eval(I0.points.grids)
 
         Mx = [
             np.matmul(np.transpose(x), np.matmul(np.diag(y), x))
-- 
2.43.0


From c7fce3224edf02cbb20c0e21903b2d436830357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 080/170] fix: tensor product interpolation of a tensor of
 evaluations

---
 .../bases/full_tensor_product_functional_basis.py         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index c9990c1..fc4d8d2 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -307,8 +307,12 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         # TODO Create an empty class Tensor for when using isinstance?
         elif isinstance(
             fun,
-            (tensap.FullTensor, tensap.CanonicalTensor, tensap.TreeBasedTensor),
-            tensap.DiagonalTensor,
+            (
+                tensap.FullTensor,
+                tensap.CanonicalTensor,
+                tensap.TreeBasedTensor,
+                tensap.DiagonalTensor,
+            ),
         ):
             y = fun
         else:
-- 
2.43.0


From 151471f2d112e694499bff70e6ed2964663c30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 081/170] fix: Jacobian of univariate bases

---
 tensap/approximation/bases/functional_basis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index a0f9ac6..54a9f03 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -469,6 +469,9 @@ class FunctionalBasis:
             out[k,i,j] is the evaluation of df_i/dx_j at the k-th sample.
 
         """
+        if self.ndim() == 1 and not hasattr(self, "bases"):
+            return self.eval_derivative(1, x)[:, :, None]
+
         dnHx_lst = []
         for ind in range(self.ndim()):
             n = self.ndim() * [0]
-- 
2.43.0


From 622d947d19fe4a58f2df8d40fedf83cdf2e536b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 082/170] fix: PolynomialFunctionalBasis.derivative projects
 with the given measure

---
 .../bases/polynomial_functional_basis.py             | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 2e3dce3..285b481 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -168,13 +168,17 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             assert self.measure is not None, "Must specify a Measure."
             measure = self.measure
 
-        nb_pts = int(max(np.ceil(np.max(self.indices) - (k - 1) / 2), 1))
-        int_rule = measure.gauss_integration_rule(nb_pts)
-
         def fun(x):
             return self.basis.dn_polyval(k, self.indices, x)
 
-        return self.projection(fun, int_rule).sub_functional_basis()
+        if self.is_orthonormal and measure is self.measure:
+            nb_pts = int(max(np.ceil(np.max(self.indices) - (k - 1) / 2), 1))
+            int_rule = measure.gauss_integration_rule(nb_pts)
+            proj = self.projection(fun, int_rule)
+        else:
+            int_rule = measure.gauss_integration_rule(int(np.max(self.indices)) + 1)
+            proj = self.least_squares_projection(fun, int_rule)
+        return proj.sub_functional_basis()
 
     def gradient(self, measure=None):
         """
-- 
2.43.0


From 31347e80a619e3b38515cb00ad8d3772f4d8bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 083/170] fix: mean of functions on bases whose mean takes no
 measure

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 7ed92ed..fd0b890 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -204,7 +204,7 @@ class FunctionalBasisArray(tensap.Function):
             The expectation of the function.
 
         """
-        M = self.basis.mean(measure)
+        M = self.basis.mean() if measure is None else self.basis.mean(measure)
         M = np.tile(np.ravel(M), np.concatenate((self.shape, [1])))
         M = np.transpose(M, np.concatenate(([np.ndim(M) - 1], range(np.ndim(M) - 1))))
         return np.sum(self.data * M, 0, keepdims=True)
-- 
2.43.0


From 263179e12b529c01546bd65c65c704e3081df4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 084/170] fix: B-splines with repeated knots

---
 .../bases/BSplines_functional_basis.py        | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index da0cf3b..881a854 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -101,9 +101,15 @@ class BSplinesFunctionalBasis(tensap.FunctionalBasis):
 
         for j in np.arange(1, self.degree + 1):
             for i in range(m - 1 - j):
-                Bx[:, i, j] = (x - t[i]) / (t[i + j] - t[i]) * Bx[:, i, j - 1] + (
-                    t[i + j + 1] - x
-                ) / (t[i + j + 1] - t[i + 1]) * Bx[:, i + 1, j - 1]
+                # The terms with coinciding knots are zero
+                if t[i + j] > t[i]:
+                    Bx[:, i, j] += (x - t[i]) / (t[i + j] - t[i]) * Bx[:, i, j - 1]
+                if t[i + j + 1] > t[i + 1]:
+                    Bx[:, i, j] += (
+                        (t[i + j + 1] - x)
+                        / (t[i + j + 1] - t[i + 1])
+                        * Bx[:, i + 1, j - 1]
+                    )
 
         return Bx
 
@@ -155,14 +161,15 @@ class BSplinesFunctionalBasis(tensap.FunctionalBasis):
 
             for j in np.arange(1, self.degree + 1):
                 for i in range(t.size - 1 - j):
-                    dBx[:, i, j] = (
-                        k / (t[i + j] - t[i]) * dBx_old[:, i, j - 1]
-                        - k / (t[i + j + 1] - t[i + 1]) * dBx_old[:, i + 1, j - 1]
-                        + (x - t[i]) / (t[i + j] - t[i]) * dBx[:, i, j - 1]
-                        + (t[i + j + 1] - x)
-                        / (t[i + j + 1] - t[i + 1])
-                        * dBx[:, i + 1, j - 1]
-                    )
+                    if t[i + j] > t[i]:
+                        dBx[:, i, j] += (
+                            k * dBx_old[:, i, j - 1] + (x - t[i]) * dBx[:, i, j - 1]
+                        ) / (t[i + j] - t[i])
+                    if t[i + j + 1] > t[i + 1]:
+                        dBx[:, i, j] += (
+                            (t[i + j + 1] - x) * dBx[:, i + 1, j - 1]
+                            - k * dBx_old[:, i + 1, j - 1]
+                        ) / (t[i + j + 1] - t[i + 1])
 
         dBx = dBx[:, : t.size - 1 - self.degree, -1]
         return dBx
-- 
2.43.0


From 3005d48524636c327920a63f18ae359adbadfc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 085/170] fix: DilatedBSplinesFunctionalBasis does not modify
 the given indices

---
 tensap/approximation/bases/BSplines_functional_basis.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index 881a854..4ab9c08 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -366,16 +366,11 @@ class DilatedBSplinesFunctionalBasis(tensap.FunctionalBasis):
         if not isinstance(B, DilatedBSplines):
             raise ValueError("must provide a DilatedBSplines")
 
-        if isinstance(Ind, tuple):
-            Ind = list(Ind)
-        elif not isinstance(Ind, list):
+        if not isinstance(Ind, (list, tuple)):
             raise ValueError("must provide a list or tuple")
 
-        Ind[0] = np.ravel(Ind[0])
-        Ind[1] = np.ravel(Ind[1])
-
         self.basis = B
-        self.indices = Ind
+        self.indices = [np.ravel(Ind[0]), np.ravel(Ind[1])]
 
     def eval(self, x):
         return self.basis.eval(self.indices, x)
-- 
2.43.0


From 2c60b6a224df8bfbc13747f5ebfe7d3360d99e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 086/170] fix: interpolation on a full tensor product basis at
 its own points

---
 tensap/approximation/bases/functional_basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 54a9f03..0be5471 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -138,6 +138,8 @@ class FunctionalBasis:
         """
         if x is None:
             x = self.interpolation_points()
+            if isinstance(x, tuple):
+                x = x[0]
         try:
             y = y(x)
         except Exception:
-- 
2.43.0


From 130904d62daa6aeab913e72b3dfdedb540e42f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 087/170] fix: variance_conditional_expectation of
 matrix-valued functions

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index fd0b890..952b66c 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -400,7 +400,7 @@ class FunctionalBasisArray(tensap.Function):
             else:
                 mi = self.conditional_expectation(u)
                 vi = mi.dot_product_expectation(mi) - m**2
-                v[i, :] = np.ravel(vi)
+                v[i, :] = np.ravel(vi, order="F")
 
         return np.reshape(
             v, np.concatenate(([np.shape(alpha)[0]], self.shape)), order="F"
-- 
2.43.0


From 143553039e9d41dbd3e47ecdeceb7dc5b814ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 088/170] fix: FunctionalBases.gram_matrices accepts a measure

---
 tensap/approximation/bases/functional_bases.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 3bb0832..1cd62b1 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -459,7 +459,7 @@ class FunctionalBases:
             dims = range(len(self))
         return [x.one() for x in self.bases[dims]]
 
-    def gram_matrices(self, dims=None):
+    def gram_matrices(self, dims=None, measure=None):
         """
         Return the gram matrices of each basis of self, or of a selection of
         them if dims is provided.
@@ -469,6 +469,10 @@ class FunctionalBases:
         dims : list or numpy.ndarray, optional
             The dimensions of the bases for which the gram matrix is computed.
             The default is None, indicating all the bases.
+        measure : tensap.RandomVector or tensap.RandomVariable, optional
+            The measure used for the computation of the gram matrices, whose
+            i-th marginal is associated with the i-th selected basis. The
+            default is None, indicating to use the measures of the bases.
 
         Returns
         -------
@@ -478,6 +482,13 @@ class FunctionalBases:
         """
         if dims is None:
             dims = range(len(self))
+        if isinstance(measure, tensap.RandomVector):
+            return [
+                x.gram_matrix(y)
+                for x, y in zip(self.bases[dims], measure.random_variables)
+            ]
+        if isinstance(measure, tensap.RandomVariable):
+            return [x.gram_matrix(measure) for x in self.bases[dims]]
         return [x.gram_matrix() for x in self.bases[dims]]
 
     def storage(self):
-- 
2.43.0


From 93502723f5625cb96c5284ec75ee692b48d85c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 089/170] fix: variance and norm of functional tensors

---
 tensap/functions/functional_tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8f48b53..7e1dc2c 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -242,7 +242,7 @@ class FunctionalTensor(tensap.Function):
                     + "order, must specify fdims."
                 )
         if self.bases == f_2.bases:
-            gram_matrix = self.bases.gram_matrix(fdims, *measure)
+            gram_matrix = self.bases.gram_matrices(fdims, *measure)
         else:
             raise NotImplementedError("Method not implemented.")
         tensor = self.tensor.tensor_matrix_product(gram_matrix, fdims)
@@ -269,7 +269,9 @@ class FunctionalTensor(tensap.Function):
 
         """
         if not self.evaluated_bases:
-            gram_matrix = self.bases.gram_matrix(range(self.tensor.order), *measure)
+            gram_matrix = self.bases.gram_matrices(
+                range(self.tensor.order), *measure
+            )
         else:
             gram_matrix = [np.eye(x.shape[1]) for x in self.bases]
         tensor = self.tensor.tensor_matrix_product(
-- 
2.43.0


From ffe00b2c73a0d9fb8b26348bed31d3fe719ebfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 090/170] fix: addition of functional tensors

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 7e1dc2c..a846f31 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -97,7 +97,7 @@ class FunctionalTensor(tensap.Function):
             self.measure = self.bases.measure
             self.dim = np.sum(self.bases.ndim())
 
-    def __plus__(self, y):
+    def __add__(self, y):
         if isinstance(y, FunctionalTensor) and self.bases == y.bases:
             tensor = self.tensor + y.tensor
         else:
-- 
2.43.0


From 7432353fafdf6abcad1366457a1c3fa55a491656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 091/170] fix: gradient of functional tensors

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index a846f31..a58354b 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -752,12 +752,12 @@ class FunctionalTensor(tensap.Function):
         """
         g = []
         for ind in range(self.bases.length()):
-            n = self.length() * [0]
+            n = self.bases.length() * [0]
             n[ind] = 1
             dHx = self.bases.eval_derivative(n, x)
             y = self.eval_with_bases_evals(dHx)
             g.append(y)
-        out = np.concatenate(g, axis=1)
+        out = np.stack(g, axis=1)
         return out
 
     def derivative(self, n):
-- 
2.43.0


From db21c7defc5214f63ac81e8060ffb8fd27de4904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 092/170] fix: evaluation of functional tensors on partial
 grids

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index a58354b..8fd09bc 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -806,9 +806,9 @@ class FunctionalTensor(tensap.Function):
             out = self.tensor.tensor_matrix_product(H, dims)
         else:
             out = deepcopy(self)
-            out.tensor = self.tensor.tensor_matrix_product(H, dims)
+            out.tensor = self.tensor.tensor_matrix_product(H, self.fdims[dims])
             out.bases = out.bases.remove_bases(dims)
-            out.fdims = out.fdims[np.setdiff1d(np.range(np.size(out.fdims)), dims)]
+            out.fdims = np.delete(out.fdims, dims)
             if np.size(out.fdims) == 0:
                 out = out.tensor
         return out
-- 
2.43.0


From 5e16225f45f4de4555d644adcbde7e4f6e586a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 093/170] fix: partial evaluation of functional tensors

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8fd09bc..7e2c9f6 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -889,7 +889,7 @@ class FunctionalTensor(tensap.Function):
                 bases_eval, fdims_eval
             )
             fdims_eval.sort()
-            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[2:])
+            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[1:])
             if out.tensor.shape[fdims_eval[0]] == 1:
                 out.tensor = out.tensor.squeeze(fdims_eval[0])
                 old_dims = np.delete(old_dims, fdims_eval[0])
-- 
2.43.0


From f7dae288a11952526cda7cde78ebc56e5a61918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 094/170] fix: evaluation of functional tensors with sparse
 coefficients

---
 tensap/functions/functional_tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 7e2c9f6..2947309 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -881,7 +881,9 @@ class FunctionalTensor(tensap.Function):
         if len(dims) == 1 and not isinstance(bases_eval, list):
             bases_eval = [bases_eval]
         if len(dims) == self.tensor.order:
-            out = self.tensor.tensor_matrix_product_eval_diag(bases_eval).numpy()
+            out = self.tensor.tensor_matrix_product_eval_diag(bases_eval)
+            if not isinstance(out, np.ndarray):
+                out = out.numpy()
         else:
             out = deepcopy(self)
             fdims_eval = out.fdims[dims]
-- 
2.43.0


From aa8c427cdac87971543ba1957b87e1f413004920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 095/170] fix: conditional expectations of functional tensors
 for boolean arrays

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 2947309..856609d 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -308,7 +308,7 @@ class FunctionalTensor(tensap.Function):
 
         """
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if dims.dtype == bool:
             dims = np.nonzero(dims)[0]
 
         d = self.tensor.order
@@ -360,7 +360,7 @@ class FunctionalTensor(tensap.Function):
         v = np.zeros(alpha.shape[0])
         for i in range(alpha.shape[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if u.dtype == bool:
                 u = np.nonzero(u)[0]
             if u.size == 0:
                 v[i] = 0
-- 
2.43.0


From d852c2068c1012dcfa7f5d045c6c6214a92219c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 096/170] fix: dot product of tree-based tensors of order one

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 3ca11f1..3cad0f7 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1892,9 +1892,10 @@ class TreeBasedTensor:
             if self.is_active_node[nod - 1]:
                 tmp = tensors2[nod - 1].tensor_matrix_product(out[nod - 1], 0)
                 out[nod - 1] = tensors1[nod - 1].tensordot(tmp, 0, 0)
-                out[nod - 1] = out[nod - 1].reshape(
-                    [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
-                )
+                if nod != tree.root:
+                    out[nod - 1] = out[nod - 1].reshape(
+                        [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
+                    )
                 out[nod - 1] = out[nod - 1].numpy()
 
         for level in np.arange(np.max(tree.level) - 1, -1, -1):
@@ -1916,10 +1917,7 @@ class TreeBasedTensor:
                         [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
                     )
                 out[nod - 1] = out[nod - 1].numpy()
-        out = out[nod_level - 1]
-        if out.size == 1:
-            out = out[0]
-        return out
+        return out[tree.root - 1]
 
     def tensordot_matrix_product_except_dim(self, tensor2, matrices, dim):
         """
-- 
2.43.0


From 94a7edf5ffdf6161456937542517da9714601b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 097/170] fix: product of vector-valued functional tensors

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 856609d..460d827 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -417,7 +417,7 @@ class FunctionalTensor(tensap.Function):
                     c = out.tensor.tensors[root - 1]
                     n = self.tensor.ranks[root - 1]
                     s = [":"] * c.order
-                    s[-1] = np.arange(n**2, step=n)
+                    s[-1] = np.arange(0, n**2, n + 1)
                     c = c.sub_tensor(*s)
                     out.tensor.tensors[root - 1] = c
                     out.tensor.ranks[root - 1] = n
-- 
2.43.0


From b0cc5dad668e7310e5f5d4121b6c67ff2bce93b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 098/170] fix: position of the evaluated dimension in partial
 evaluations with full tensors

---
 tensap/functions/functional_tensor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 460d827..e9e156a 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -890,11 +890,15 @@ class FunctionalTensor(tensap.Function):
             out.tensor = out.tensor.tensor_matrix_product_eval_diag(
                 bases_eval, fdims_eval
             )
-            fdims_eval.sort()
-            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[1:])
-            if out.tensor.shape[fdims_eval[0]] == 1:
-                out.tensor = out.tensor.squeeze(fdims_eval[0])
-                old_dims = np.delete(old_dims, fdims_eval[0])
+            if isinstance(out.tensor, tensap.FullTensor):
+                eval_dim = 0
+            else:
+                eval_dim = np.min(fdims_eval)
+            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval)
+            if out.tensor.shape[eval_dim] == 1:
+                out.tensor = out.tensor.squeeze(eval_dim)
+            else:
+                old_dims = np.insert(old_dims, eval_dim, -1)
             out.bases = out.bases.remove_bases(dims)
             out.fdims = np.delete(out.fdims, dims)
             out.fdims = np.nonzero(np.isin(old_dims, out.fdims))[0]
-- 
2.43.0


From d5036d700321ccf488854a4db2478cfb175c40c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 099/170] fix: evaluation of functional tensors with evaluated
 bases and other dimensions

---
 tensap/functions/functional_tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index e9e156a..60dd1f5 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -899,7 +899,10 @@ class FunctionalTensor(tensap.Function):
                 out.tensor = out.tensor.squeeze(eval_dim)
             else:
                 old_dims = np.insert(old_dims, eval_dim, -1)
-            out.bases = out.bases.remove_bases(dims)
+            if self.evaluated_bases:
+                out.bases = [y for i, y in enumerate(self.bases) if i not in dims]
+            else:
+                out.bases = out.bases.remove_bases(dims)
             out.fdims = np.delete(out.fdims, dims)
             out.fdims = np.nonzero(np.isin(old_dims, out.fdims))[0]
             if out.fdims.size == 0:
-- 
2.43.0


From 733f26251972e913f4011c46bc610281aecf93cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 100/170] fix: mean of functional tensors with diagonal
 coefficients

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 90e5efd..2a298ff 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -237,18 +237,21 @@ class DiagonalTensor:
         """
         self.shape = np.full(self.order, self.data.size)
 
-    def tensor_vector_product(self, vectors):
+    def tensor_vector_product(self, vectors, dims=None):
         """
         Compute the contraction of the tensor with vectors.
 
         Compute the contraction of self with each vector contained in the list
-        vectors along all the dimensions. The operation is such that V[k] is
-        contracted with the k-th dimension of self.
+        vectors. The operation is such that V[k] is contracted with the k-th
+        dimension of self, or with the dimension dims[k] if dims is provided.
 
         Parameters
         ----------
         vectors : numpy.ndarray or list of numpy.ndarray
             The vectors to use in the product.
+        dims : list or numpy.ndarray, optional
+            Indices of the contractions. The result does not depend on them as
+            the tensor is symmetric. The default is None.
 
         Returns
         -------
-- 
2.43.0


From 41cfff5c4da8773672d1ca53444401020157dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 101/170] fix: mean of functional tensors with other dimensions

---
 tensap/functions/functional_tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 60dd1f5..05917fe 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -134,7 +134,10 @@ class FunctionalTensor(tensap.Function):
 
         """
         bases_eval = self.bases.mean(None, *measure)
-        return self.tensor.tensor_vector_product(bases_eval, self.fdims).tolist()
+        out = self.tensor.tensor_vector_product(bases_eval, self.fdims)
+        if isinstance(out, tensap.FullTensor):
+            out = out.numpy()
+        return out.tolist()
 
     def expectation(self, *measure):
         """
-- 
2.43.0


From aa8bce7f2b6a179bb387315670cb5f746b3141c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 102/170] fix: product of matrices with sparse tensors without
 non-zero entries

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 960d655..83dd57b 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -397,7 +397,7 @@ class SparseTensor:
             x2u, x2uind = np.unique(x2, return_inverse=True)
             s = coo_matrix(
                 (out.data[out.data != 0], (x1, x2uind)),
-                shape=(out.shape[0], np.max(x2uind) + 1),
+                shape=(out.shape[0], x2u.size),
             )
             a = np.transpose(s.transpose().dot(np.transpose(matrices[k])))
             y1, y2 = np.nonzero(a)
-- 
2.43.0


From 939f82d41998a09512aecd6bbd6803f9ebf297c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 103/170] fix: evaluation of functions storing their
 evaluations

---
 tensap/functions/function.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index cd7bcda..28cdd2a 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -66,18 +66,15 @@ class Function:
             x = np.expand_dims(x, 1)
 
         if self.store:
-            y = self.store_eval(x)
-            if np.ndim(y) == 2 and np.shape(y)[1] == 1:
-                y = np.squeeze(y, axis=1)
-            return y
+            y, f = self.store_eval(x)
         else:
             y = self.eval(x)
-            if np.ndim(y) == 2 and np.shape(y)[1] == 1:
-                y = np.squeeze(y, axis=1)
             f = self
-            if return_f:
-                return y, f
-            return y
+        if np.ndim(y) == 2 and np.shape(y)[1] == 1:
+            y = np.squeeze(y, axis=1)
+        if return_f:
+            return y, f
+        return y
 
     def store_eval(self, x):
         """
@@ -145,7 +142,9 @@ class Function:
             self._x_stored = x
             self._y_stored = y
 
-        return np.squeeze(y), self
+        if np.ndim(y) == 2 and np.shape(y)[1] == 1:
+            y = np.squeeze(y, axis=1)
+        return y, self
 
     def fplot(self, support=None, n_points=100, *args, **kwargs):
         """
-- 
2.43.0


From 43dc65208ede4488d4a32fcd589af40a5b4d3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 104/170] fix: stored evaluations of matrix-valued functions

---
 tensap/functions/function.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 28cdd2a..bd8e1dc 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -114,11 +114,14 @@ class Function:
             if x_new.size != 0:
                 y_new = self.eval(x_new)
                 y[np.setdiff1d(range(x.shape[0]), ind_1), :] = np.reshape(
-                    y_new, (y_new.shape[0], -1)
+                    y_new, (y_new.shape[0], -1), order="F"
                 )
                 self._x_stored = np.vstack((self._x_stored, x_new))
                 self._y_stored = np.vstack(
-                    (self._y_stored, np.reshape(y_new, (y_new.shape[0], -1)))
+                    (
+                        self._y_stored,
+                        np.reshape(y_new, (y_new.shape[0], -1), order="F"),
+                    )
                 )
             y = np.reshape(
                 y,
-- 
2.43.0


From 7789890012a630f708ed7a1e55f30770ef72c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 105/170] fix: random evaluations of functions for a given
 measure

---
 tensap/functions/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index bd8e1dc..f8c9b34 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -309,7 +309,7 @@ class Function:
                 measure = self.measure
             else:
                 raise ValueError("Must provide a ProbabilityMeasure.")
-        elif not isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif not isinstance(measure, tensap.ProbabilityMeasure):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
         x = measure.random(n)
-- 
2.43.0


From 9ab038d78eebf9bfd7873f2844decbd416ed7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 106/170] fix: partial evaluation of functions without measure

---
 tensap/functions/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index f8c9b34..a0a165f 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -274,7 +274,8 @@ class Function:
         f_alpha = tensap.UserDefinedFunction(fun, alpha.size)
         f_alpha.store = self.store
         f_alpha.evaluation_at_multiple_points = self.evaluation_at_multiple_points
-        f_alpha.measure = self.measure.marginal(alpha)
+        if self.measure is not None:
+            f_alpha.measure = self.measure.marginal(alpha)
 
         return f_alpha
 
-- 
2.43.0


From 6d904f1a8d3113979c466ccf79f092110e636b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 107/170] fix: benchmark functions oscillatory, product_peak,
 gaussian and continuous

---
 tensap/functions/multivariate_functions_benchmark.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensap/functions/multivariate_functions_benchmark.py b/tensap/functions/multivariate_functions_benchmark.py
index 2cacad7..aeebd08 100644
--- a/tensap/functions/multivariate_functions_benchmark.py
+++ b/tensap/functions/multivariate_functions_benchmark.py
@@ -237,13 +237,13 @@ def multivariate_functions_benchmark(case, *args):
         if case == "oscillatory":
 
             def fun(x):
-                return np.cos(w[0] * 2 * np.pi + np.matmul(x, np.transpose(c)))
+                return np.cos(w[0, 0] * 2 * np.pi + np.matmul(x, np.transpose(c)))
 
         elif case == "product_peak":
 
             def fun(x):
                 return 1 / np.prod(
-                    np.tile(x ** (-2), (np.shape(x)[0], 1))
+                    np.tile(c ** (-2), (np.shape(x)[0], 1))
                     + (x + np.tile(w, (np.shape(x)[0], 1))) ** 2,
                     1,
                 )
@@ -259,8 +259,8 @@ def multivariate_functions_benchmark(case, *args):
         elif case == "gaussian":
 
             def fun(x):
-                return np.matmul(
-                    np.exp(
+                return np.exp(
+                    np.matmul(
                         -((x - np.tile(w, (np.shape(x)[0], 1))) ** 2),
                         np.transpose(c) ** 2,
                     )
@@ -269,8 +269,8 @@ def multivariate_functions_benchmark(case, *args):
         elif case == "continuous":
 
             def fun(x):
-                return np.matmul(
-                    np.exp(
+                return np.exp(
+                    np.matmul(
                         -np.abs(x - np.tile(w, (np.shape(x)[0], 1))),
                         np.transpose(c) ** 2,
                     )
-- 
2.43.0


From 34155b111e9dbb30cbf84a254ac5946672330268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 108/170] fix: partial evaluation of vector-valued functions

---
 tensap/functions/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index a0a165f..541a2c8 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -271,7 +271,7 @@ class Function:
             grid = tensap.FullTensorGrid([x_alpha, x_not_alpha])
             return self.eval(grid.array()[:, ind])
 
-        f_alpha = tensap.UserDefinedFunction(fun, alpha.size)
+        f_alpha = tensap.UserDefinedFunction(fun, alpha.size, self.output_shape)
         f_alpha.store = self.store
         f_alpha.evaluation_at_multiple_points = self.evaluation_at_multiple_points
         if self.measure is not None:
-- 
2.43.0


From 6410b40d9a4d942f6683868c211ba7358512c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 109/170] fix: tensorization of vector-valued functions

---
 tensap/functions/tensorizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/tensorizer.py b/tensap/functions/tensorizer.py
index 60319eb..305b1ab 100644
--- a/tensap/functions/tensorizer.py
+++ b/tensap/functions/tensorizer.py
@@ -209,10 +209,14 @@ class Tensorizer:
             fun.evaluation_at_multiple_points = True
 
         f = tensap.UserDefinedFunction(
-            lambda z: fun(self.inverse_map(z)), (self.d + 1) * self.dim
+            lambda z: fun(self.inverse_map(z)),
+            (self.d + 1) * self.dim,
+            fun.output_shape,
         )
         f.evaluation_at_multiple_points = fun.evaluation_at_multiple_points
-        return tensap.TensorizedFunction(f, self)
+        f = tensap.TensorizedFunction(f, self)
+        f.output_shape = fun.output_shape
+        return f
 
     def tensorized_function_functional_bases(self, h=1):
         """
-- 
2.43.0


From 6c6ac95153e8ec05491e2f2ad04bbdc833f46aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 110/170] fix: greedy algorithm of
 interpolation_points_feature_map

---
 .../approximation/tools/interpolation_points_feature_map.py  | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/tools/interpolation_points_feature_map.py b/tensap/approximation/tools/interpolation_points_feature_map.py
index 4566073..8967edc 100644
--- a/tensap/approximation/tools/interpolation_points_feature_map.py
+++ b/tensap/approximation/tools/interpolation_points_feature_map.py
@@ -43,9 +43,8 @@ def interpolation_points_feature_map(F, x):
     # Evaluate the functional basis F at points x
     F_eval = F.eval(x)
 
-    # Apply the greedy algorithm to select points (assuming greedyAlgorithml2 is defined)
-    # Transpose to match the MATLAB behavior
-    L = tensap.greedy_algorithml2(F_eval.T, [])
+    # Apply the greedy algorithm to select points
+    L = tensap.magic_indices(F_eval)[0]
 
     # Select the corresponding rows from x
     xI = x[L, :]
-- 
2.43.0


From b7c4cbbe5dd4b32aa551cfe5f05337642bdc8f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 111/170] fix: square loss of scalar data in 1-D or mixed
 layouts

---
 tensap/approximation/learning/loss_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/loss_functions.py b/tensap/approximation/learning/loss_functions.py
index d1f1105..d547406 100644
--- a/tensap/approximation/learning/loss_functions.py
+++ b/tensap/approximation/learning/loss_functions.py
@@ -163,8 +163,12 @@ class SquareLossFunction(LossFunction):
             except Exception:
                 y_pred = fun
 
-        y_pred = np.atleast_2d(y_pred)
-        y_true = np.atleast_2d(sample[1])
+        # One row per sample, one column per output
+        y_true = np.asarray(sample[1])
+        y_true = np.reshape(y_true, (y_true.shape[0], -1) if y_true.ndim else (1, 1))
+        y_pred = np.asarray(y_pred)
+        if y_pred.size == y_true.size:
+            y_pred = np.reshape(y_pred, y_true.shape)
         loss = np.sum((y_pred - y_true) ** 2, 1)
 
         if nargout == 1:
-- 
2.43.0


From b949a9576f36b1c126af21d0b1220a5c77dbed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 112/170] fix: complexity of a FunctionalBasisArray ignored the
 requested storage

---
 tensap/approximation/tools/model_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tools/model_selection.py b/tensap/approximation/tools/model_selection.py
index 9c05a7b..5eb1d9e 100644
--- a/tensap/approximation/tools/model_selection.py
+++ b/tensap/approximation/tools/model_selection.py
@@ -208,7 +208,7 @@ class ModelSelection:
         if isinstance(x, (list, np.ndarray)):
             return [ModelSelection.complexity(y, *args, **kwargs) for y in x]
         if isinstance(x, tensap.FunctionalBasisArray):
-            return np.size(x.data)
+            return ModelSelection.complexity_functional_basis_array(x, *args, **kwargs)
         if isinstance(x, tensap.FunctionalTensor):
             return ModelSelection.complexity(x.tensor, *args, **kwargs)
         if isinstance(x, tensap.TreeBasedTensor):
-- 
2.43.0


From 4759c8da6aa80d0c21f1ba07af5eee7589c36769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 113/170] fix: path of penalized models with ties or a single
 model

---
 tensap/approximation/tools/model_selection.py | 39 +++++++++++--------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/tensap/approximation/tools/model_selection.py b/tensap/approximation/tools/model_selection.py
index 5eb1d9e..775a001 100644
--- a/tensap/approximation/tools/model_selection.py
+++ b/tensap/approximation/tools/model_selection.py
@@ -98,32 +98,38 @@ class ModelSelection:
         m_path = []
         lambda_0 = 0
         lambda_current = 0
-        ind = np.argmin(risk)
+        pen = self.pen_shape(comp)
+        # Among equivalent models, the one with the smallest penalty remains
+        # optimal when lambda increases
+        ind = np.lexsort((pen, risk))[0]
+        ind_min = ind
         ok = True
 
         while ok:
             with np.errstate(all="ignore"):
-                lambda_current = (risk - risk[ind]) / (
-                    self.pen_shape(comp[ind]) - self.pen_shape(comp)
-                )
-                lambda_current[lambda_current <= lambda_0] = np.nan
+                lambda_current = (risk - risk[ind]) / (pen[ind] - pen)
+                lambda_current[pen >= pen[ind]] = np.nan
                 lambda_current[lambda_current == np.inf] = np.nan
 
             ok = not np.all(np.isnan(lambda_current))
             if ok:
-                lambda_0 = np.nanmin(lambda_current)
-                if not np.isnan(lambda_0):
-                    ind = np.nanargmin(lambda_current)
+                ind = np.lexsort((pen, lambda_current))[0]
+                if lambda_current[ind] > lambda_0:
+                    lambda_0 = lambda_current[ind]
                     path.append(lambda_0)
                     m_path.append(ind)
+                elif m_path:
+                    # Same value of lambda up to rounding errors
+                    m_path[-1] = ind
+                else:
+                    ind_min = ind
 
         if path == []:
             path = 0
-            m_path = 0
+            m_path = ind_min
         else:
             path = np.atleast_1d(path)
             m_path = np.atleast_1d(m_path)
-            ind_min = np.argmin(risk)
             path = np.concatenate(([path[0] / 2], path, [path[-1] * 2]))
             m_path = np.concatenate(([ind_min], m_path, [m_path[-1]]))
         return np.array(path), np.array(m_path)
@@ -160,16 +166,15 @@ class ModelSelection:
         """
         comp = np.array(self.data["complexity"])
 
-        # If all the complexities are equal, choose the first model
-        if np.all(np.diff(comp) == 0):
+        if lambda_path is None and m_path is None:
+            lambda_path, m_path = self.lambda_path()
+
+        # The same model minimizes the penalized risk for all lambda
+        if np.size(lambda_path) <= 1:
             lambda_hat = 0
-            m_hat = 0
-            lambda_path = lambda_hat
-            m_path = m_hat
+            m_hat = m_path
             return lambda_hat, m_hat, lambda_path, m_path
 
-        if lambda_path is None and m_path is None:
-            lambda_path, m_path = self.lambda_path()
         l_mid = (lambda_path[:-1] + lambda_path[1:]) / 2
         gaps = comp[self.m_lambda(l_mid[:-1])] - comp[self.m_lambda(l_mid[1:])]
         ind = np.argmax(gaps)
-- 
2.43.0


From 76cf4db8a9274b4ef3f34ea82e1146a5050e2eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 114/170] fix: parameter_gradient_eval_dmrg with several
 outputs

---
 tensap/functions/functional_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 05917fe..4cc0d1d 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -683,7 +683,7 @@ class FunctionalTensor(tensap.Function):
                         fH.tensors[alpha - 1].order + fH.tensors[gamma - 1].order - 2
                     ]
                 perm_3 = []
-                if alpha != tree.root and self.tensor.ranks[tree.root - 1] > 1:
+                if gamma != tree.root and self.tensor.ranks[tree.root - 1] > 1:
                     perm_3 = [grad.order - 1]
                 grad = grad.transpose(
                     np.concatenate(([0], perm_1 + 1, perm_2, perm_3)).astype(int)
@@ -695,8 +695,8 @@ class FunctionalTensor(tensap.Function):
                     # TODO Checks
                     perm_2 = [fH.tensors[gamma - 1].order - 1]
                 perm_3 = []
-                if alpha != tree.root and self.tensor.ranks[tree.root - 1] > 1:
-                    perm_3 = [grad.order - 1]
+                if gamma != tree.root and self.tensor.ranks[tree.root - 1] > 1:
+                    perm_3 = [g_gamma.order - 1]
                 g_gamma = g_gamma.transpose(
                     np.concatenate(([0], perm_1b + 1, perm_2, perm_3)).astype(int)
                 )
-- 
2.43.0


From 4b3acb8f399a4d2a130f0f27bcd8a3ca22ac4b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 115/170] fix: gradient with respect to a root whose children
 are all inactive

---
 .../tensors/tree_based_tensor.py              | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 3cad0f7..8e2b2cf 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2261,15 +2261,27 @@ class TreeBasedTensor:
         tree = self.tree
         tensors = np.array(self.tensors)
 
-        diag_below = self.eval_diag_below(alpha)
-        diag_above = self.eval_diag_above(diag_below, alpha)
-
         children = tree.children(alpha)
         active_ch = children[self.is_active_node[children - 1]]
         inactive_ch = tensap.fast_setdiff(children, active_ch)
 
+        if alpha == tree.root:
+            # The gradient does not depend on the root tensor itself
+            diag_below = self.eval_diag_below(alpha, [alpha])
+            if active_ch.size != 0:
+                nb_points = diag_below[active_ch[0] - 1].shape[0]
+            elif matrices is not None and inactive_ch.size != 0:
+                ind = np.nonzero(tree.dim2ind == inactive_ch[0])[0][0]
+                nb_points = np.shape(matrices[ind])[0]
+            else:
+                nb_points = tensors[alpha - 1].shape[0]
+        else:
+            diag_below = self.eval_diag_below(alpha)
+            diag_above = self.eval_diag_above(diag_below, alpha)
+            nb_points = diag_above.shape[0]
+
         if tree.is_leaf[alpha - 1]:
-            out = tensap.FullTensor.ones(diag_above.shape[0])
+            out = tensap.FullTensor.ones(nb_points)
             if matrices is not None:
                 ind = np.nonzero(tree.dim2ind == alpha)[0][0]
                 out = out.outer_product_eval_diag(
@@ -2293,7 +2305,7 @@ class TreeBasedTensor:
                         diag_below[active_ch[child] - 1], 0, 0
                     )
             if inactive_ch.size != 0:
-                tmp = tensap.FullTensor.ones(diag_above.shape[0])
+                tmp = tensap.FullTensor.ones(nb_points)
                 for child in inactive_ch:
                     if matrices is not None:
                         ind = np.nonzero(tree.dim2ind == child)[0][0]
-- 
2.43.0


From 2f2dc70b45f645f13c76ada7c8ad1e985b6fb0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 116/170] fix: node numbers of parameter_gradient_eval with
 inactive leaves

---
 tensap/functions/functional_tensor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 4cc0d1d..536a20f 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -570,7 +570,14 @@ class FunctionalTensor(tensap.Function):
 
                 tree = tensap.DimensionTree(dim2ind, adj_mat)
                 fH = tensap.TreeBasedTensor(tensors[keep_ind], tree)
+                unique_children = [
+                    tree.children(nod)[0]
+                    for nod in tree.internal_nodes
+                    if np.size(tree.children(nod)) == 1
+                ]
+                alpha = alpha - np.count_nonzero(np.array(unique_children) < alpha)
                 fH = fH.remove_unique_children()
+                tree = fH.tree
                 bases_eval = [bases_eval[x] for x in remaining_dims]
         else:
             if alpha <= self.tensor.order:
@@ -599,7 +606,7 @@ class FunctionalTensor(tensap.Function):
             else:
                 perm_2 = [fH.tensors[alpha - 1].order]
 
-            if alpha != tree.root and self.tensor.ranks[tree.root - 1] > 1:
+            if alpha != tree.root and fH.ranks[tree.root - 1] > 1:
                 perm_3 = [grad.order - 1]
             else:
                 perm_3 = []
-- 
2.43.0


From f335de03e96f2e79fdb8c4b4ff034b6e07e7941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 117/170] fix: gradient of a plain tensor with respect to a
 leaf

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 8e2b2cf..fcde7fa 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2289,7 +2289,7 @@ class TreeBasedTensor:
                 )
             else:
                 out = out.outer_product_eval_diag(
-                    tensap.FullTensor(np.eye(diag_below[alpha - 1].shape[0])),
+                    tensap.FullTensor(np.eye(tensors[alpha - 1].shape[0])),
                     [],
                     [],
                     True,
@@ -2410,7 +2410,10 @@ class TreeBasedTensor:
                 )
             else:
                 g_alpha = g_alpha.outer_product_eval_diag(
-                    tensap.FullTensor(np.eye(u_alpha[alpha - 1].shape[0])), [], [], True
+                    tensap.FullTensor(np.eye(self.tensors[alpha - 1].shape[0])),
+                    [],
+                    [],
+                    True,
                 )
             # g_alpha = g_alpha.squeeze()
         else:
-- 
2.43.0


From bf4253e567c62ad4570e919c9cbd540f1f1fc80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 118/170] fix: solve of linear models leaves the data and
 options as given

---
 .../learning/linear_model_learning.py         | 32 +++++++++++++++++++
 .../linear_model_learning_density_l2.py       | 15 +++++++++
 .../linear_model_learning_square_loss.py      | 15 +++++++++
 3 files changed, 62 insertions(+)

diff --git a/tensap/approximation/learning/linear_model_learning.py b/tensap/approximation/learning/linear_model_learning.py
index 9d0923c..20395fe 100644
--- a/tensap/approximation/learning/linear_model_learning.py
+++ b/tensap/approximation/learning/linear_model_learning.py
@@ -19,6 +19,8 @@ Module linear_model_learning.
 
 """
 
+from contextlib import contextmanager
+
 import tensap
 
 
@@ -35,6 +37,36 @@ class LinearModelLearning(tensap.Learning):
         self.basis_adaptation_path = None
         self.options = {}
 
+    @contextmanager
+    def _preserve_attributes(self):
+        """
+        Context manager restoring the data and the options of the object that
+        are modified during the resolution.
+
+        Returns
+        -------
+        None.
+
+        """
+        names = [
+            "basis_eval",
+            "basis_eval_test",
+            "training_data",
+            "error_estimation_type",
+            "error_estimation_options",
+        ]
+        if hasattr(self, "linear_solver"):
+            names.append("linear_solver")
+        attributes = {name: getattr(self, name) for name in names}
+        if isinstance(self.training_data, list):
+            self.training_data = list(self.training_data)
+        self.error_estimation_options = dict(self.error_estimation_options)
+        try:
+            yield
+        finally:
+            for name in names:
+                setattr(self, name, attributes[name])
+
     def initialize(self):
         # If the test error cannot be computed, it is disabled
         if self.test_error and self.basis is None and self.basis_eval_test is None:
diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 68a2af4..9408b9a 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -61,6 +61,21 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         output : dict
             Outputs of the algorithm.
 
+        """
+        with self._preserve_attributes():
+            return self._solve()
+
+    def _solve(self):
+        """
+        Solution of the minimization problem, see the method solve.
+
+        Returns
+        -------
+        sol : numpy.ndarray or tensap.FunctionalBasisArray
+            The solution of the minimization problem.
+        output : dict
+            Outputs of the algorithm.
+
         """
         self.initialize()
 
diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index d5c355a..506bf98 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -76,6 +76,21 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         Solution (Ordinary or Regularized) of the Least-Squares problem and
         cross-validation procedure.
 
+        Returns
+        -------
+        sol : numpy.ndarray or tensap.FunctionalBasisArray
+            The solution of the minimization problem.
+        output : dict
+            Outputs of the algorithm.
+
+        """
+        with self._preserve_attributes():
+            return self._solve()
+
+    def _solve(self):
+        """
+        Solution of the minimization problem, see the method solve.
+
         Returns
         -------
         sol : numpy.ndarray or tensap.FunctionalBasisArray
-- 
2.43.0


From e345cc92f908a54af89b071291a8792b580daf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 119/170] fix: weights of the least-squares learning are used

---
 .../learning/linear_model_learning_square_loss.py        | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 506bf98..d3646ba 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -123,9 +123,12 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         output = {}
 
         if self.weights is not None:
-            weights = diags(np.sqrt(self.weights))
-            A = np.matmul(weights, A)
-            y = np.matmul(weights, y)
+            weights = np.sqrt(np.ravel(self.weights))
+            weights = np.tile(weights, A.shape[0] // weights.size)
+            A = A * np.reshape(weights, [-1, 1])
+            y = y * np.reshape(weights, [-1] + [1] * (np.ndim(y) - 1))
+            self.basis_eval = A
+            self.training_data[1] = y
 
         if not self.basis_adaptation:
             if not self.regularization:
-- 
2.43.0


From 8d9eb3e4a6501108ba834bd178146945b35d8dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 120/170] fix: cross-validation errors of vector-valued outputs

---
 .../learning/linear_model_learning_square_loss.py         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index d3646ba..8804d2e 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -588,7 +588,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 T = np.sum(q_A**2, 1)
 
             with np.errstate(divide="ignore", invalid="ignore"):
-                delta = (y - np.matmul(A, sol)) / (1 - np.reshape(T, y.shape))
+                delta = (y - np.matmul(A, sol)) / (
+                    1 - np.reshape(T, [N] + [1] * (np.ndim(y) - 1))
+                )
             delta = np.squeeze(delta)
             # Compute the absolute cross-validation error
             err = np.mean(delta**2, 0)
@@ -629,14 +631,14 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 )
                 # Compute the absolute cross-validation error for the current
                 # fold
-                errors.append(np.mean(delta_loc**2))
+                errors.append(np.mean(delta_loc**2, 0))
                 if n == 1:
                     delta[test] = delta_loc
                 else:
                     delta[test, :] = delta_loc
 
             # Average over the folds
-            err = np.mean(errors)
+            err = np.mean(errors, 0)
             delta = np.squeeze(delta)
         else:
             raise NotImplementedError(
-- 
2.43.0


From 150420b32395212e30b15365de9472df5abe615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 121/170] fix: test errors of vector-valued least squares

---
 .../learning/linear_model_learning_square_loss.py     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 8804d2e..e086286 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -159,18 +159,23 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     output["outputs"][ind] = output_tmp
 
         if self.test_error:
-            if n == 1:
+            if np.ndim(self.basis_eval_test) == 3:
+                f_eval = np.tensordot(self.basis_eval_test, np.ravel(sol), (1, 0))
+                output["test_error"] = self.loss_function.test_error(
+                    f_eval, self.test_data
+                )
+            elif n == 1:
                 f_eval = np.matmul(self.basis_eval_test, sol)
                 output["test_error"] = self.loss_function.test_error(
                     f_eval, self.test_data
                 )
             else:
-                output["test_error"] = np.zeros([1, n])
+                output["test_error"] = np.zeros(n)
                 f_eval = np.matmul(self.basis_eval_test, sol)
                 for ind in range(n):
                     test_data = [self.test_data[0], self.test_data[1][:, ind]]
                     output["test_error"][ind] = self.loss_function.test_error(
-                        f_eval, test_data
+                        f_eval[:, ind], test_data
                     )
 
         if self.basis is not None:
-- 
2.43.0


From f15c3ba22ab7fc21e762627bb449979fc0acf9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 122/170] fix: l0 regularization of least squares

---
 .../learning/linear_model_learning_square_loss.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index e086286..1e8fc77 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -20,7 +20,6 @@ Module linear_model_learning_square_loss.
 """
 
 import numpy as np
-from scipy.sparse import diags
 import tensap
 
 
@@ -261,9 +260,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         options = self.regularization_options
         if self.regularization_type == "l0":
-            options_loc = {i: output[i] for i in output if i != "alpha"}
+            options_loc = {i: options[i] for i in options if i != "alpha"}
             D = np.linalg.norm(A, axis=0)
-            A_omp = np.matmul(A, diags(1 / D))
+            D[D == 0] = 1
+            A_omp = A / D
             solpath = linear_model.orthogonal_mp(
                 A_omp,
                 y,
@@ -272,8 +272,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 return_path=True,
                 **options_loc
             )
-            solpath = np.atleast_2d(solpath)
-            sol = np.matmul(diags(1 / D), solpath[:, -1])
+            solpath = np.reshape(solpath, [P, -1]) / np.reshape(D, [-1, 1])
+            sol = solpath[:, -1]
         elif self.regularization_type == "l1":
             reg = linear_model.LassoLars(copy_X=True, fit_intercept=False, **options)
             reg.fit(A, y)
-- 
2.43.0


From a99e17ca90dd7a8bfc7067eaee84c476c995c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 123/170] fix: non-zero blocks in the selection of a
 regularized solution

---
 .../learning/linear_model_learning_square_loss.py              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 1e8fc77..44c15cf 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -289,8 +289,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         if (self.model_selection and np.linalg.norm(
                 solpath) != 0) and solpath.shape[1] > 1:
             if "non_zero_blocks" in self.options:
-                rep = np.true(solpath.shape[1])
-                rep = np.logical_and(rep, np.any(solpath, 0))
+                rep = np.any(solpath, 0)
                 for block in self.options["non_zero_blocks"]:
                     rep = np.logical_and(rep, np.any(solpath[block, :], 0))
                 solpath = solpath[:, rep]
-- 
2.43.0


From 91246957288da07e32c4646ef61d01063c19d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 124/170] fix: error estimation of a sparse regularized
 solution

---
 .../approximation/learning/linear_model_learning_square_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 44c15cf..ec357f6 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -306,7 +306,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 error = np.mean(delta ** 2, 0) / second_moment
             else:
                 # if len(sol) > 1:
-                if np.all(sol != 0):
+                if np.any(sol != 0):
                     ind = np.nonzero(sol)[0]
                     A_red = A[:, ind]
                     sol_ind = sol[ind]
-- 
2.43.0


From bc4ba0288ebb42d28ab0ec25876810960649d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 125/170] fix: Gram matrix of the candidate bases

---
 .../learning/linear_model_learning_square_loss.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index ec357f6..9837b8d 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -430,7 +430,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
             A_red = A[:, ind]
             if "gram_matrix" in self.error_estimation_options:
-                self.error_estimation_options["gram_matrix"] = gram_matrix[ind, ind]
+                self.error_estimation_options["gram_matrix"] = gram_matrix[
+                    np.ix_(ind, ind)
+                ]
 
             if A_red.shape[1] > A_red.shape[0]:
                 self.linear_solver = "solve"
-- 
2.43.0


From 6a400a49efcd74436884ee392d81d60a15206d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 126/170] fix: stop_if_error_increase stops the selection of a
 least-squares model

---
 .../approximation/learning/linear_model_learning_square_loss.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 9837b8d..ab30f41 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -472,6 +472,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
                 delta[:, i + 1:] = np.inf
+                break
 
         ind = np.argmin(err)
 
-- 
2.43.0


From 73120581317cc62726c5b10ba038b85d82832303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 127/170] fix: loss function and test error of L2 density
 learning

---
 .../learning/linear_model_learning_density_l2.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 9408b9a..59bb64b 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -45,7 +45,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         None.
 
         """
-        super().__init__(tensap.SquareLossFunction())
+        super().__init__(tensap.DensityL2LossFunction())
 
         self.is_basis_orthonormal = True
 
@@ -89,7 +89,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         if self.test_error:
             f_eval = np.matmul(self.basis_eval_test, sol)
             output["test_error"] = self.loss_function.test_error(
-                f_eval, self.test_data, sol.norm() ** 2
+                f_eval, self.test_data, np.linalg.norm(sol)
             )
 
         if self.basis is not None:
-- 
2.43.0


From f76591c79414fa568d3588e42b033842ea37ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 128/170] fix: included coefficients of L2 density learning
 with an offset

---
 .../approximation/learning/linear_model_learning_density_l2.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 59bb64b..5324eb9 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -203,7 +203,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
                     / (N * (N - 1) ** 2)
                     * np.sum(np.ravel(A_square_sum)[incl_coef])
                     - 2 / (N - 1) * np.sum(np.matmul(A, sol_incl_coef))
-                    + 2 * np.sum(sol_incl_coef * b_incl_coef)
+                    + 2 * np.sum(sol_incl_coef[incl_coef] * b_incl_coef)
                 )
 
         if list_sort.size == 0:
-- 
2.43.0


From a28ebec45226bcc6309d62217b67f470cd90a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 129/170] fix: stop_if_error_increase stops the selection of an
 L2 density

---
 .../approximation/learning/linear_model_learning_density_l2.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 5324eb9..7141396 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -372,6 +372,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             ):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
+                break
 
         ind = np.argmin(err)
 
-- 
2.43.0


From 6c9402bcc4e64455f817e23130bcdf8dfa3006b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 130/170] fix: Gram matrix is kept for the next outputs

---
 .../learning/linear_model_learning_square_loss.py              | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index ab30f41..73806f7 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -474,6 +474,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 delta[:, i + 1:] = np.inf
                 break
 
+        if "gram_matrix" in self.error_estimation_options:
+            self.error_estimation_options["gram_matrix"] = gram_matrix
+
         ind = np.argmin(err)
 
         output["error"] = err[ind]
-- 
2.43.0


From 749fdc767de7bd6adaf05861dad2b2496e0a64f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 131/170] fix: mean initialization of tree-based learning

---
 .../tree_based_tensor_learning.py             | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 36a9778..7630c3e 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -103,7 +103,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
         ):
-            if not np.all(self.rank == 1):
+            is_one = np.asarray(self.rank) == 1
+            is_one[np.logical_not(self.is_active_node)] = True
+            is_one[self.tree.root - 1] = True
+            if not np.all(is_one):
                 raise NotImplementedError(
                     "Initialization only implemented " + "if np.all(self.rank == 1)."
                 )
@@ -118,24 +121,24 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if isinstance(self.bases, tensap.FunctionalBases):
                 means = self.bases.mean()
             else:
-                means = [np.mean(x) for x in self.bases_eval]
+                means = [np.mean(x, 0) for x in self.bases_eval]
             if self.initialization_type == "mean_randomized":
                 means = [x + 0.01 * np.random.randn(*x.shape) for x in means]
             means = [tensap.FullTensor(x, 2, [x.shape[0], 1]) for x in means]
 
-            f = tensap.TreeBasedTensor.ones(self.tree, self.rank, shape)
+            f = tensap.TreeBasedTensor.ones(
+                self.tree, np.ones(self.tree.nb_nodes, dtype=int), shape
+            )
             f.tensors[self.tree.dim2ind - 1] = means
             nb_child = len(self.tree.children(self.tree.root))
-            if np.ndim(self.training_data[1]) == 2:
-                shape = np.concatenate(
-                    (np.full(nb_child, 1), [self.training_data[1].shape[1]])
-                )
+            if self.output_dimension > 1:
+                shape = np.concatenate((np.full(nb_child, 1), [self.output_dimension]))
             else:
                 shape = np.full(nb_child, 1)
             f.tensors[self.tree.root - 1] = tensap.FullTensor(
-                np.mean(self.training_data[1]), shape=shape
+                np.mean(self.training_data[1], 0), shape=shape
             )
-            f.update_attributes()
+            f = f.update_attributes()
 
             f = f.inactivate_nodes(
                 np.nonzero(np.logical_not(self.is_active_node))[0] + 1
-- 
2.43.0


From 47f9b0c1b8ee573c1be1a247a21562030dce43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 132/170] fix: the iterates of tensor learning are copies

---
 .../tensor_learning/tensor_learning.py                 | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index bd6fbb0..82e7c78 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -470,10 +470,10 @@ class TensorLearning(tensap.Learning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(deepcopy(f))
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
@@ -603,9 +603,11 @@ class TensorLearning(tensap.Learning):
 
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
-                    iterates[iteration] = tensap.FunctionalTensor(f.tensor, self.bases)
+                    iterates[iteration] = tensap.FunctionalTensor(
+                        deepcopy(f.tensor), self.bases
+                    )
                 else:
-                    iterates[iteration] = f
+                    iterates[iteration] = deepcopy(f)
 
             if self.display:
                 if self.alternating_minimization_parameters["display"]:
-- 
2.43.0


From 6616593c0b04d5475c9c57f780d9107d49ce5337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 133/170] fix: the iterates of DMRG learning are copies

---
 .../tensor_learning/tree_based_tensor_learning.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 7630c3e..0ca4dd4 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -996,10 +996,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(deepcopy(f))
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
-- 
2.43.0


From 933d93c001114c0d39c7c0ebcc12b3d13d0b83e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 134/170] fix: random enrichment of the ranks of an initial
 guess

---
 .../tensor_learning/tree_based_tensor_learning.py          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 0ca4dd4..159d279 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -1241,9 +1241,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             The enriched tree-based tensor.
 
         """
+        f = deepcopy(f)
         f.is_orth = False
         tree = f.tree
-        enriched_dims = np.nonzero(new_rank > f.ranks)[0]
+        enriched_dims = np.nonzero(new_rank > f.ranks)[0] + 1
 
         for level in np.arange(1, np.max(tree.level) + 1):
             nod_lvl = np.intersect1d(tree.nodes_with_level(level), enriched_dims)
@@ -1261,7 +1262,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                         * (1 + np.random.randn(A.shape[0], rank)),
                     )
                 )
-                A[:, -1 - rank - 1:] /= np.sqrt(np.sum(A[:, -1 - rank - 1:] ** 2, 0))
+                A[:, -rank:] /= np.sqrt(np.sum(A[:, -rank:] ** 2, 0))
                 shape = np.array(f.tensors[alpha - 1].shape)
                 shape[-1] += rank
                 f.tensors[alpha - 1].data = np.reshape(A, shape, order="F")
@@ -1277,7 +1278,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                         * (1 + np.random.randn(A.shape[0], rank)),
                     )
                 )
-                A[:, -1 - rank - 1:] /= np.sqrt(np.sum(A[:, -1 - rank - 1:] ** 2, 0))
+                A[:, -rank:] /= np.sqrt(np.sum(A[:, -rank:] ** 2, 0))
                 shape = np.array(f.tensors[gamma - 1].shape)
                 shape[ch] += rank
                 A = np.reshape(A, shape[ind], order="F")
-- 
2.43.0


From d695b8317c26b7d9d395009c78b7e22930f4bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 135/170] fix: rank adaptation without rank-one correction

---
 .../tensor_learning/tree_based_tensor_learning.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 159d279..5a25ac4 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -493,9 +493,11 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             s_local.rank_adaptation = False
             s_local.display = False
             s_local.alternating_minimization_parameters["display"] = False
+            selection_rank = s_local.rank
             tensor_for_selection = s_local.solve()[0].tensor
         else:
             tensor_for_selection = f.tensor
+            selection_rank = f.tensor.ranks
 
         sin_val = tensor_for_selection.singular_values()
 
@@ -508,7 +510,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         dim2ind = np.intersect1d(f.tensor.tree.dim2ind, f.tensor.active_nodes)
         ind = [len(set(x.size)) == 1 for x in f.tensor.tensors[dim2ind - 1]]
         sin_val[dim2ind[ind] - 1] = np.nan
-        sin_val[s_local.rank != tensor_for_selection.ranks] = np.nan
+        sin_val[selection_rank != tensor_for_selection.ranks] = np.nan
 
         sin_val_min = np.array([np.min(x) for x in sin_val])
         sin_val_min[
-- 
2.43.0


From 8e0fa1be29f56a486b33fd2d58c1b44a71dae45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 136/170] fix: random exploration strategy of tree-based
 learning

---
 .../tensor_learning/tree_based_tensor_learning.py        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 5a25ac4..1416ce7 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -189,14 +189,13 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         return self, f
 
     def randomize_exploration_strategy(self):
-        strategy = np.zeros(self._number_of_parameters)
+        strategy = np.zeros(self._number_of_parameters, dtype=int)
         for level in np.arange(np.max(self.tree.level), -1, -1):
             active_nodes = np.intersect1d(
-                self.tree.nodes_with_level(level), np.nonzero(self.is_active_node)[0]
-            )
-            _, ind = np.intersect1d(
-                self._exploration_strategy, active_nodes, return_indices=True
+                self.tree.nodes_with_level(level),
+                np.nonzero(self.is_active_node)[0] + 1,
             )
+            ind = np.nonzero(np.isin(self._exploration_strategy, active_nodes))[0]
             strategy[ind] = self._exploration_strategy[np.random.permutation(ind)]
         return strategy
 
-- 
2.43.0


From 14502644448e88c8064d80d0e1d70e3be5400493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 137/170] fix: learning of integer-valued outputs

---
 .../tensor_learning/canonical_tensor_learning.py              | 2 +-
 .../tensor_learning/tree_based_tensor_learning.py             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index da8472a..8518a33 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -147,7 +147,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.test_error = False
             s_ini.display = False
             if isinstance(s_ini.training_data, list) and len(s_ini.training_data) == 2:
-                s_ini.training_data[1] -= fx
+                s_ini.training_data[1] = s_ini.training_data[1] - fx
             elif isinstance(s_ini.loss_function, tensap.DensityL2LossFunction):
                 s_ini.training_data = [s_ini.training_data, fx]
 
diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 1416ce7..c1c227d 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -352,7 +352,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
 
         solver = deepcopy(self)
         if isinstance(solver.training_data, list) and len(solver.training_data) == 2:
-            solver.training_data[1] -= fx
+            solver.training_data[1] = solver.training_data[1] - fx
         elif isinstance(solver.loss_function, tensap.DensityL2LossFunction):
             solver.training_data = [solver.training_data, f]
 
@@ -395,7 +395,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         solver = deepcopy(self)
         solver.model_selection = False
         if isinstance(solver.training_data, list) and len(solver.training_data) == 2:
-            solver.training_data[1] -= fx
+            solver.training_data[1] = solver.training_data[1] - fx
         elif isinstance(solver.loss_function, tensap.DensityL2LossFunction):
             solver.training_data = [solver.training_data, f]
         solver.rank_adaptation = False
-- 
2.43.0


From ca092f182509feac96418e1c8bb4c834d1e0993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 138/170] fix: greedy learning in canonical format

---
 .../canonical_tensor_learning.py              | 52 ++++++++++---------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 8518a33..877746c 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -354,6 +354,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         bases_eval = self.bases_eval
         output = {}
         output["sequence"] = np.empty(self.rank, dtype=object)
+        output["test_error_iterations"] = []
+        self._number_of_parameters = self.order + 1
 
         # Replication of the LinearModelLearning objects
         if self.linear_model_learning_parameters[
@@ -390,14 +392,14 @@ class CanonicalTensorLearning(tensap.TensorLearning):
 
         f = tensap.CanonicalTensor.zeros(0, [x.shape[1] for x in bases_eval])
         f_0 = deepcopy(f)
-        stagnation = np.zeros((1, self.rank))
+        stagnation = np.zeros(self.rank)
 
         ls_local = deepcopy(
             s_local.linear_model_learning[self._number_of_parameters - 1]
         )
 
         is_error = False
-        error = np.ones((1, self.rank))
+        error = np.ones(self.rank)
         pure_greedy = False
         if not pure_greedy:
             for linear_solver in self.linear_model_learning:
@@ -434,19 +436,27 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 is_error = True
                 if self.alternating_minimization_parameters["display"]:
                     print(
-                        "Alternating minimization (greedy): rank = %i, "
-                        + "error = %2.5e, stagnation = %2.5e",
-                        current_rank,
-                        error[k - 1],
-                        stagnation[k - 1],
+                        "Alternating minimization (greedy): rank = %i, " % current_rank
+                        + "error = %2.5e, stagnation = %2.5e"
+                        % (error[k - 1], stagnation[k - 1])
                     )
             else:
                 if self.alternating_minimization_parameters["display"]:
                     print(
-                        "Alternating minimization (greedy): rank = %i, "
-                        + "stagnation = %2.5e",
-                        current_rank,
-                        stagnation[k - 1],
+                        "Alternating minimization (greedy): rank = %i, " % current_rank
+                        + "stagnation = %2.5e" % stagnation[k - 1]
+                    )
+
+            if self.test_error:
+                f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
+                output["test_error"] = self.loss_function.test_error(
+                    f_eval_test, self.test_data
+                )
+                output["test_error_iterations"].append(output["test_error"])
+                if self.display:
+                    print(
+                        "Greedy: iteration %i, test error = %2.5e"
+                        % (k, output["test_error"])
                     )
 
             if (
@@ -461,28 +471,20 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 break
 
             f_0 = deepcopy(f)
-            if self.test_error:
-                f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
-                output["test_error"] = self.loss_function.test_error(
-                    f_eval_test, self.test_data
-                )
-                output["test_error_iterations"].append(output["test_error"])
-                if self.display:
-                    print(
-                        "Greedy: iteration %i, test error = %2.5e",
-                        k,
-                        output["test_error"],
-                    )
 
-        output["stagnation"] = stagnation[: k - 1]
+        output["stagnation"] = stagnation[:k]
         if is_error:
-            output["errors"] = error[: k - 1]
+            output["errors"] = error[:k]
             K = np.argmin(output["errors"])
             f = output["sequence"][K]
             output["selected_iterate"] = K
             output["error"] = output["errors"][K]
+            if self.test_error:
+                output["test_error"] = output["test_error_iterations"][K]
 
         if isinstance(self.bases, tensap.FunctionalBases):
             f = tensap.FunctionalTensor(f, self.bases)
+        else:
+            f = tensap.FunctionalTensor(f, self.bases_eval)
 
         return f, output
-- 
2.43.0


From d626d84a9d421a471a6b4874acff1116d7974341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 139/170] fix: initial guess of canonical learning with one
 linear model per parameter

---
 .../tensor_learning/canonical_tensor_learning.py            | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 877746c..1d051d8 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -118,7 +118,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.algorithm = "greedy"
             s_ini.initialization_type = "mean"
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            for x in np.ravel(s_ini.linear_model_learning):
+                setattr(x, "error_estimation", False)
             s_ini.test_error = False
             s_ini.display = False
             f, output_ini = s_ini.solve()
@@ -143,7 +144,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.initialization_type = "greedy"
             s_ini.rank = self.rank - len(f.core.data)
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            for x in np.ravel(s_ini.linear_model_learning):
+                setattr(x, "error_estimation", False)
             s_ini.test_error = False
             s_ini.display = False
             if isinstance(s_ini.training_data, list) and len(s_ini.training_data) == 2:
-- 
2.43.0


From 4c40dbfb15c1faf4407117562c552e1014d65ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 140/170] fix: tensor learning solvers can be used again

---
 .../tensor_learning/tensor_learning.py        | 55 +++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index 82e7c78..0c94f3f 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -147,6 +147,61 @@ class TensorLearning(tensap.Learning):
         """
         Solver for the learning problem with tensor formats.
 
+        Parameters
+        ----------
+        *args : misc
+            Additional arguments, if needed.
+
+        Raises
+        ------
+        NotImplementedError
+            If the required solver is not implemented.
+        ValueError
+            If the required data is not provided.
+
+        Returns
+        -------
+        f : tensap.FunctionalTensor
+            The learned approximation.
+        output : dict
+            The outputs of the solver.
+
+        """
+        # The attributes modified during the resolution are restored afterwards
+        names = [
+            "bases_eval",
+            "bases_eval_test",
+            "bases_adaptation_path",
+            "linear_model_learning",
+            "rank",
+            "output_dimension",
+            "test_error",
+            "store_iterates",
+            "model_selection",
+            "error_estimation",
+            "tree_adaptation",
+            "rank_adaptation_options",
+            "alternating_minimization_parameters",
+        ]
+        names += [x for x in ["tree", "is_active_node"] if hasattr(self, x)]
+        attributes = {name: getattr(self, name) for name in names}
+        for name in ["rank", "rank_adaptation_options"]:
+            setattr(self, name, deepcopy(getattr(self, name)))
+        self.alternating_minimization_parameters = deepcopy(
+            self.alternating_minimization_parameters
+        )
+        if isinstance(self.linear_model_learning, (list, np.ndarray)):
+            self.linear_model_learning = deepcopy(self.linear_model_learning)
+        try:
+            return self._solve(*args)
+        finally:
+            for name, value in attributes.items():
+                setattr(self, name, value)
+
+    def _solve(self, *args):
+        """
+        Solution of the learning problem, see the method solve.
+
         Parameters
         ----------
         *args : misc
-- 
2.43.0


From 310429ff3baf0adcfeb2e9f43e9f6cdbe6cbedda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 141/170] fix: error of a vector-valued approximation whose
 last updated parameter is the root

---
 .../tensor_approximation/tensor_learning/tensor_learning.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index 0c94f3f..63e6ce8 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -532,6 +532,11 @@ class TensorLearning(tensap.Learning):
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
+                if np.size(output["error"]) > 1:
+                    norms = np.sum(np.asarray(self.training_data[1]) ** 2, 0)
+                    output["error"] = np.sqrt(
+                        np.sum(np.asarray(output["error"]) ** 2 * norms) / np.sum(norms)
+                    )
                 output["error_iterations"].append(output["error"])
 
             if self.test_error:
-- 
2.43.0


From 40b979aa502de998abe591a9a5258c92ab33c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:12 +0000
Subject: [PATCH 142/170] fix: orthogonalisation of the first factor of an
 order-two canonical learning keeps the function

---
 .../tensor_learning/canonical_tensor_learning.py   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 1d051d8..c797f20 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -280,8 +280,18 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 f.tensor.space[mu - 1] = coef
                 f.tensor.core.data = np.ravel(norm_coef)
 
-                if len(f.tensor.space) == 2 and mu == 1:
-                    f.tensor.space[0] = np.linalg.qr(f.tensor.space[0])[0]
+                if (
+                    len(f.tensor.space) == 2
+                    and mu == 1
+                    and f.tensor.shape[0] >= self.rank
+                ):
+                    factor, triangular = np.linalg.qr(f.tensor.space[0])
+                    f.tensor.space[0] = factor
+                    f.tensor.space[1] = np.matmul(
+                        f.tensor.space[1] * f.tensor.core.data,
+                        np.transpose(triangular),
+                    )
+                    f.tensor.core.data = np.ones(self.rank)
             else:
                 ind = mu
                 mu = int(
-- 
2.43.0


From dd1a66d34c2493ccfd605069f9d804ad75019b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:12 +0000
Subject: [PATCH 143/170] fix: canonical learning does not change its initial
 guess

---
 .../tensor_learning/canonical_tensor_learning.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index c797f20..c7eddbd 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -88,7 +88,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         elif self.initialization_type == "ones":
             f = tensap.CanonicalTensor.ones(self.rank, shape)
         elif self.initialization_type == "initial_guess":
-            f = self.initial_guess
+            f = deepcopy(self.initial_guess)
         elif (
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
-- 
2.43.0


From 7e0bbda3dfe1f61bd95363c02418cb00227baabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 144/170] fix: exploration strategy of canonical learning
 follows the truncated initial rank

---
 .../canonical_tensor_learning.py              | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index c7eddbd..91e9ca9 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -64,24 +64,6 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             print("tree_adaptation not defined for CanonicalTensorLearning.")
             self.tree_adaptation = False
 
-        if (
-            "one_by_one_factor" in self.alternating_minimization_parameters
-            and self.alternating_minimization_parameters["one_by_one_factor"]
-            and self.rank != 1
-        ):
-            self._exploration_strategy = np.arange(
-                1,
-                self.alternating_minimization_parameters["inner_loops"]
-                * self.rank
-                * self.order
-                + 2,
-            )
-            self._number_of_parameters = self._exploration_strategy.size
-        else:
-            self.alternating_minimization_parameters["one_by_one_factor"] = False
-            self._exploration_strategy = np.arange(1, self.order + 2)
-            self._number_of_parameters = self.order + 1
-
         shape = [x.shape[1] for x in self.bases_eval]
         if self.initialization_type == "random":
             f = tensap.CanonicalTensor.randn(self.rank, shape)
@@ -165,6 +147,24 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 f = tr.truncate(f)
                 f = tensap.CanonicalTensor(f.space, f.core.data)
                 self.rank = len(f.core.data)
+
+        if (
+            "one_by_one_factor" in self.alternating_minimization_parameters
+            and self.alternating_minimization_parameters["one_by_one_factor"]
+            and self.rank != 1
+        ):
+            self._exploration_strategy = np.arange(
+                1,
+                self.alternating_minimization_parameters["inner_loops"]
+                * self.rank
+                * self.order
+                + 2,
+            )
+            self._number_of_parameters = self._exploration_strategy.size
+        else:
+            self.alternating_minimization_parameters["one_by_one_factor"] = False
+            self._exploration_strategy = np.arange(1, self.order + 2)
+            self._number_of_parameters = self.order + 1
         return self, f
 
     def pre_processing(self, f):
-- 
2.43.0


From 65b8d0749637491c209740641814a93519d495f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 145/170] fix: model selection is not applied to the
 initialization of canonical learning

---
 .../tensor_learning/canonical_tensor_learning.py                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 91e9ca9..5034780 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -103,6 +103,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             for x in np.ravel(s_ini.linear_model_learning):
                 setattr(x, "error_estimation", False)
             s_ini.test_error = False
+            s_ini.model_selection = False
             s_ini.display = False
             f, output_ini = s_ini.solve()
 
@@ -129,6 +130,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             for x in np.ravel(s_ini.linear_model_learning):
                 setattr(x, "error_estimation", False)
             s_ini.test_error = False
+            s_ini.model_selection = False
             s_ini.display = False
             if isinstance(s_ini.training_data, list) and len(s_ini.training_data) == 2:
                 s_ini.training_data[1] = s_ini.training_data[1] - fx
-- 
2.43.0


From 31d7ec3815907c838638870217608d5b595019ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 146/170] fix: cores updated by DMRG learning keep the ranks
 and the orthogonality flag of the tensor up to date

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index c1c227d..a17aa96 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -956,6 +956,8 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 f.tensor.tensors[gamma - 1] = tensap.FullTensor(
                     a_gamma, np.size(sz_2), sz_2
                 )
+                f.tensor.is_orth = False
+                f.tensor = f.tensor.update_attributes()
 
             if self.rank_adaptation_options["post_alternating_minimization"]:
                 print("\t\tPost alternating minimization.")
-- 
2.43.0


From b38cb3a15b6b4131d5eeb561f1615795dc075b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 147/170] fix: correction of an L2 density in tree-based format

---
 .../tree_based_tensor_learning.py             | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index a17aa96..6675c86 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -242,22 +242,19 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 y = self.training_data[1]
                 if isinstance(y, tensap.FunctionalTensor):
                     y = y.tensor
-                y = y.orth()
-                if tree.is_leaf[mu - 1]:
-                    a = deepcopy(y)
-                    for nod in tree.internal_nodes:
-                        a.tensors[nod - 1] = tensap.FullTensor(
-                            y.tensors[nod - 1].data * f.tensor.tensors[nod - 1].data,
-                            shape=y.tensors[nod - 1].shape,
-                        )
-                    ind = np.setdiff1d(
-                        range(self.order), np.nonzero(tree.dim2ind == mu)[0]
+                # Inner products of y with the derivatives of f with respect
+                # to the entries of the parameter.
+                shape = f.tensor.tensors[mu - 1].shape
+                derivative = deepcopy(f.tensor)
+                derivative.is_orth = False
+                b = np.zeros(f.tensor.tensors[mu - 1].data.size)
+                for k in range(b.size):
+                    entries = np.zeros(b.size)
+                    entries[k] = 1
+                    derivative.tensors[mu - 1] = tensap.FullTensor(
+                        np.reshape(entries, shape, order="F")
                     )
-                    C = [x.data for x in f.tensor.tensors[tree.dim2ind - 1]]
-                    b = a.tensor_vector_product([C[x] for x in ind], ind)
-                    b = b.tensors[0].data
-                else:
-                    b = f.tensor.dot(y) / f.tensor.tensors[mu - 1].data
+                    b[k] = derivative.dot(y)
             else:
                 b = []
         elif isinstance(self.training_data, list) and len(self.training_data) == 2:
-- 
2.43.0


From 47c35b64c13145a61d7ee3b3ad5f2108b10826c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 148/170] fix: random exploration strategy of DMRG learning

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 6675c86..af54e85 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -189,7 +189,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         return self, f
 
     def randomize_exploration_strategy(self):
-        strategy = np.zeros(self._number_of_parameters, dtype=int)
+        strategy = np.zeros(len(self._exploration_strategy), dtype=int)
         for level in np.arange(np.max(self.tree.level), -1, -1):
             active_nodes = np.intersect1d(
                 self.tree.nodes_with_level(level),
-- 
2.43.0


From b01a9ec6df9d661dd419f17e8ee86a957441255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 149/170] fix: iterate whose tree was adapted is recorded with
 its test error

---
 .../tensor_approximation/tensor_learning/tensor_learning.py   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index 63e6ce8..9a7fcbc 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -737,6 +737,10 @@ class TensorLearning(tensap.Learning):
                 )
                 adapted_tree = output["adapted_tree"]
                 if adapted_tree:
+                    if self.store_iterates:
+                        iterates[iteration] = tensap.FunctionalTensor(
+                            deepcopy(f.tensor), iterates[iteration].bases
+                        )
                     if self.display:
                         print(
                             "\t\tStorage complexity before permutation "
-- 
2.43.0


From e99fb02c0157bfdb0028194be43319e45157d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 150/170] fix: conversion of a tree-based tensor to a full
 tensor leaves its tree unchanged

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index fcde7fa..7652301 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -535,6 +535,7 @@ class TreeBasedTensor:
             return a
 
         tensors = np.array(self.tensors)
+        tree_dims = list(tree.dims)
 
         for level in np.arange(np.max(tree.level), -1, -1):
             nod_level = tensap.fast_setdiff(tree.nodes_with_level(level), tree.dim2ind)
@@ -549,10 +550,10 @@ class TreeBasedTensor:
                             [dims.size],
                         )
                         tensors[child - 1] = None
-                        dims = np.concatenate((tree.dims[child - 1], dims))
+                        dims = np.concatenate((tree_dims[child - 1], dims))
                     else:
-                        dims = np.concatenate((dims, tree.dims[child - 1]))
-                tree.dims[nod - 1] = dims
+                        dims = np.concatenate((dims, tree_dims[child - 1]))
+                tree_dims[nod - 1] = dims
 
         tensor = tensors[tree.root - 1]
         if tensor.order > self.order:
-- 
2.43.0


From 1ec81486aab3e88e661d33d47863f28c513b39a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 151/170] fix: samples of principal component analysis are the
 indices of the evaluated entries

---
 .../tensor_principal_component_analysis.py             | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index 8393e4f..4a48a4d 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -147,11 +147,13 @@ class TensorPrincipalComponentAnalysis:
             A = tensap.FullTensor(
                 np.zeros((I_alpha.shape[0], 0)), 2, [I_alpha.shape[0], 0]
             )
+            samples = []
             for k in range(N):
                 product_grid = tensap.FullTensorGrid(
                     [I_alpha, np.reshape(I_not_alpha[k, :], (1, -1))]
                 ).array()
 
+                samples.append(product_grid[:, ind])
                 A_k = np.linalg.solve(B_alpha, fun(product_grid[:, ind]))
                 A.data = np.column_stack((A.data, A_k))
                 pc, sin_val = A.principal_components(tol)
@@ -159,10 +161,12 @@ class TensorPrincipalComponentAnalysis:
                     (k + 1) / self.pca_sampling_factor
                 ):
                     break
+            samples = np.concatenate(samples)
             output["number_of_evaluations"] = I_alpha.shape[0] * (k + 1)
         else:
             product_grid = tensap.FullTensorGrid([I_alpha, I_not_alpha]).array()
-            A = fun(product_grid[:, ind])
+            samples = product_grid[:, ind]
+            A = fun(samples)
             A = np.reshape(A, [B_alpha.shape[0], N], "F")
             A = np.linalg.solve(B_alpha, A)
             A = tensap.FullTensor(A, 2, [B_alpha.shape[0], N])
@@ -170,7 +174,7 @@ class TensorPrincipalComponentAnalysis:
             output["number_of_evaluations"] = I_alpha.shape[0] * N
 
         output["singular_values"] = sin_val
-        output["samples"] = product_grid
+        output["samples"] = samples
         return pc, output
 
     def hopca(self, fun, shape):
@@ -527,7 +531,7 @@ class TensorPrincipalComponentAnalysis:
         )
         alpha_grids[alpha - 1] = I_alpha
         number_of_evaluations += I_alpha.shape[0]
-        samples[alpha - 1] = I_alpha
+        samples[alpha - 1] = I_alpha[:, ind]
         if solver.display:
             print("Interpolation - nb_eval = %i" % I_alpha.shape[0])
 
-- 
2.43.0


From 2fa039a8cc910c872e30c1bae0a6de6bacdf1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:52 +0000
Subject: [PATCH 152/170] fix: list of one precision is accepted by the
 tree-based principal component analysis

---
 .../tensor_principal_component_analysis.py                  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index 4a48a4d..a87bb8a 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -405,8 +405,10 @@ class TensorPrincipalComponentAnalysis:
         if is_active_node is None:
             is_active_node = np.full(tree.nb_nodes, True)
 
-        if (np.ndim(self.tol) == 0 or len(self.tol) == 1) and self.tol < 1:
-            solver.tol /= np.sqrt(np.count_nonzero(is_active_node) - 1)
+        if (np.ndim(self.tol) == 0 or len(self.tol) == 1) and np.all(
+            np.less(self.tol, 1)
+        ):
+            solver.tol = self.tol / np.sqrt(np.count_nonzero(is_active_node) - 1)
 
         if np.ndim(self.tol) == 0 or len(self.tol) == 1:
             solver.tol = np.full(tree.nb_nodes, solver.tol)
-- 
2.43.0


From f2959d683d5573d191c25b5c28083903df7f7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:20 +0000
Subject: [PATCH 153/170] fix: monotone envelope of a list

---
 tensap/tools/multi_indices.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 32b0122..91c863b 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -488,6 +488,7 @@ class MultiIndices:
         """
         array = self.array
         n = self.cardinal()
+        u = np.asarray(u)
         assert np.size(u) == n, (
             "The length of the sequence does not coincide with the number "
             + "of multi-indices."
-- 
2.43.0


From b2094220d76d57e100faa93201fe91a11585d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:20 +0000
Subject: [PATCH 154/170] fix: activity of a single dimension of a tree-based
 tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 7652301..c9014a1 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -226,7 +226,7 @@ class TreeBasedTensor:
         """
         result = np.isin(self.tree.dim2ind[dim], self.active_nodes)
         if result.size == 1:
-            result = result[0]
+            result = result.item()
         return result
 
     def __repr__(self):
-- 
2.43.0


From 3d84e2bbb66b940eb3831c70ae8ff392f45fdfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:49 +0000
Subject: [PATCH 155/170] fix: products of tree-based tensors with different
 active nodes

---
 .../tensors/tree_based_tensor.py              | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index c9014a1..2e3240f 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -252,13 +252,26 @@ class TreeBasedTensor:
     # def __eq__(self, tensor2):
     #     return np.all(self.data == tensor2.data)
 
-    def __add__(self, arg):
+    def _to_same_format(self, arg):
+        """
+        Return two tensors with the same values and the same active nodes.
 
-        if not isinstance(arg, TreeBasedTensor):
-            raise NotImplementedError(
-                "Addition only implemented for two TreeBasedTensor."
-            )
+        Parameters
+        ----------
+        arg : TreeBasedTensor
+            The second tensor, which must have the same tree.
+
+        Raises
+        ------
+        ValueError
+            If the trees of the two tensors differ.
+
+        Returns
+        -------
+        tuple of TreeBasedTensor
+            The two tensors with the active nodes of both.
 
+        """
         if (
             not self.tree == arg.tree
             or not np.array_equal(self.tree.adjacency_matrix, arg.tree.adjacency_matrix)
@@ -269,7 +282,16 @@ class TreeBasedTensor:
         if not np.all(self.is_active_node == arg.is_active_node):
             self = self.activate_nodes(arg.active_nodes)
             arg = arg.activate_nodes(self.active_nodes)
+        return self, arg
+
+    def __add__(self, arg):
+
+        if not isinstance(arg, TreeBasedTensor):
+            raise NotImplementedError(
+                "Addition only implemented for two TreeBasedTensor."
+            )
 
+        self, arg = self._to_same_format(arg)
         tree = self.tree
         tensors = np.array(self.tensors)
 
@@ -1314,6 +1336,7 @@ class TreeBasedTensor:
             The concatenated tensors.
 
         """
+        self, tensor2 = self._to_same_format(tensor2)
         tensors = np.array(self.tensors)
         for nod in np.arange(1, self.tree.nb_nodes + 1):
             if self.is_active_node[nod - 1]:
@@ -1337,6 +1360,7 @@ class TreeBasedTensor:
             The tensor resulting from the Kronecker product.
 
         """
+        self, tensor2 = self._to_same_format(tensor2)
         tensors = np.array(self.tensors)
         for nod in np.arange(1, self.tree.nb_nodes + 1):
             if self.is_active_node[nod - 1]:
@@ -1883,6 +1907,7 @@ class TreeBasedTensor:
             The weighted inner product.
 
         """
+        self, tensor2 = self._to_same_format(tensor2)
         tree = self.tree
         tensors1 = np.array(self.tensors)
         tensors2 = tensor2.tensors
-- 
2.43.0


From a843b695284c298a0094af6fc1a37ce0e7fab87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:37 +0000
Subject: [PATCH 156/170] fix: maximal degree of the polynomials of a normal or
 discrete variable

---
 tensap/functions/measures/discrete_random_variable.py | 2 +-
 tensap/functions/measures/normal_random_variable.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index d6ee516..408993d 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -167,7 +167,7 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
         return tensap.IntegrationRule(self.values, self.probabilities)
 
-    def orthonormal_polynomials(self):
+    def orthonormal_polynomials(self, *max_degree):
         """
         Return orthonormal polynomials associated with
         the DiscreteRandomVariable.
diff --git a/tensap/functions/measures/normal_random_variable.py b/tensap/functions/measures/normal_random_variable.py
index 5f4b2fa..0229e19 100644
--- a/tensap/functions/measures/normal_random_variable.py
+++ b/tensap/functions/measures/normal_random_variable.py
@@ -174,7 +174,7 @@ class NormalRandomVariable(tensap.RandomVariable):
         """
         return array([-inf, inf])
 
-    def orthonormal_polynomials(self):
+    def orthonormal_polynomials(self, *max_degree):
         """
         Return orthonormal polynomials associated with
         the NormalRandomVariable.
-- 
2.43.0


From 22a9afc679e83309be3368b8b8f6acc071f33781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:37 +0000
Subject: [PATCH 157/170] fix: density of a random vector with a copula

---
 tensap/functions/measures/random_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index e4349bb..907491d 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -231,7 +231,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             u = np.zeros(x.shape)
             for i in range(self.size):
                 u[:, i] = np.ravel(self.random_variables[i].cdf(x[:, i]))
-            p = p * self.copula.pdf(u)
+            p = p * np.ravel(self.copula.pdf(u))
 
         return p
 
-- 
2.43.0


From ba9c79ad409a0263bd4021a7124a2b3032bac35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:23 +0000
Subject: [PATCH 158/170] fix: partial evaluation of a tree-based tensor at one
 index

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 2e3240f..56fcb79 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1222,7 +1222,7 @@ class TreeBasedTensor:
 
         sub_tensor = self.sub_tensor(*indices)
         if dims is not None and np.size(dims) > 1 and shape == 1:
-            sub_tensor = sub_tensor.squeeze()
+            sub_tensor = sub_tensor.squeeze(dims[1:])
         elif dims is not None and np.size(dims) > 1:
             sub_tensor = sub_tensor.eval_diag(dims)
         elif dims is None:
-- 
2.43.0


From 3eb5c902c5558bf0657d39ca463ce13bd650c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:34 +0000
Subject: [PATCH 159/170] fix: SparseTensor of the entries given in a list

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 83dd57b..87a1f05 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -81,7 +81,7 @@ class SparseTensor:
                 self.shape = np.shape(data)
 
                 rep = np.nonzero(data)
-                self.data = data[rep]
+                self.data = np.asarray(data)[rep]
                 self.indices = tensap.MultiIndices(
                     np.hstack([np.reshape(x, [-1, 1]) for x in rep])
                 )
-- 
2.43.0


From a5cd90d9b5d81ad76a11d2c980cb0d81b432f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:03 +0000
Subject: [PATCH 160/170] fix: tensor train whose cores are associated with
 given dimensions

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 56fcb79..de65896 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2740,10 +2740,10 @@ class TreeBasedTensor:
         order = len(cores)
         tree = tensap.DimensionTree.linear(order)
         tensors = np.empty(tree.nb_nodes, dtype="object")
+        dim2ind = tree.dim2ind
         if dims is not None:
-            cores = cores[np.argsort(dims)]
+            tree = tree.permute(np.array(dims))
 
-        dim2ind = tree.dim2ind
         nod = dim2ind[0]
         for dim in range(order):
             tensors[nod - 1] = cores[dim]
-- 
2.43.0


From 22d83ba1aea2d6a61ed5da2a3f5d72261f5f0086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:08 +0000
Subject: [PATCH 161/170] fix: FullTensorGrid leaves the list of grids it is
 given unchanged

---
 tensap/tools/grids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/grids.py b/tensap/tools/grids.py
index 37950ad..9a4940a 100644
--- a/tensap/tools/grids.py
+++ b/tensap/tools/grids.py
@@ -182,6 +182,7 @@ class FullTensorGrid(TensorGrid):
                 np.ndim(grids) == 1
             ), "The first argument must be a unidimensional grid."
             grids = [np.reshape(grids, (-1, 1))] * dim
+        grids = list(grids)
         for i in range(len(grids)):
             if len(grids[i].shape) == 1:
                 grids[i] = np.reshape(grids[i], (-1, 1))
-- 
2.43.0


From 10c4605fb49bf0d86d4641e9fc356780193f76ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:30 +0000
Subject: [PATCH 162/170] fix: regularized least squares of several outputs do
 not need error estimates

---
 .../learning/linear_model_learning_square_loss.py            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 73806f7..4fc3e7c 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -137,12 +137,13 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     sol, output = self._solve_regularized_ls()
                 else:
                     sol = np.zeros([A.shape[1], n])
-                    output["error"] = np.zeros(n)
                     output["outputs"] = np.empty(n, dtype=object)
                     for ind in range(n):
                         self.training_data[1] = y[:, ind]
                         sol[:, ind], output_tmp = self._solve_regularized_ls()
-                        output["error"][ind] = output_tmp["error"]
+                        if "error" in output_tmp:
+                            output.setdefault("error", np.zeros(n))
+                            output["error"][ind] = output_tmp["error"]
                         output["outputs"][ind] = output_tmp
         else:
             if n == 1:
-- 
2.43.0


From 3d210dd5df0a640c6da17e073594ef96ac53ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:19 +0000
Subject: [PATCH 163/170] fix: stop_if_error_increase of the L2 density stops
 when the (negative) error increases, not when it decreases

---
 .../approximation/learning/linear_model_learning_density_l2.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 7141396..97443a7 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -368,7 +368,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             if (
                 i > 1
                 and self.model_selection_options["stop_if_error_increase"]
-                and err[i] > 2 * err[i - 1]
+                and err[i] > err[i - 1] + np.abs(err[i - 1])
             ):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
-- 
2.43.0


From 454950d51cb274cba9ab1ff1a419bc7246be5511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:53 +0000
Subject: [PATCH 164/170] fix: evaluations stored by a function do not change
 with the arrays of the caller

---
 tensap/functions/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 541a2c8..79f49aa 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -142,8 +142,8 @@ class Function:
                 y = np.reshape(y, [np.size(y), 1])
 
             self.store = True
-            self._x_stored = x
-            self._y_stored = y
+            self._x_stored = np.array(x)
+            self._y_stored = np.array(y)
 
         if np.ndim(y) == 2 and np.shape(y)[1] == 1:
             y = np.squeeze(y, axis=1)
-- 
2.43.0


From b8c89edab9b6d603aa7efa5d20e8faf0c96ad63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:05 +0000
Subject: [PATCH 165/170] fix: concatenate integer and real FullTensors along
 several dimensions

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 103f9ef..bee61a8 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -592,7 +592,7 @@ class FullTensor:
             padding = np.transpose([[0] * order, shape_out - shape1])
             data = np.pad(tensor1.data, padding)
             padding = np.transpose([shape_out - shape2, [0] * order])
-            data += np.pad(tensor2.data, padding)
+            data = data + np.pad(tensor2.data, padding)
 
         return FullTensor(data)
 
-- 
2.43.0


From d02a2f57cc91871b3d3f33ba6e866f9cc5c0909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:32 +0000
Subject: [PATCH 166/170] fix: inner product of a FullTensor with a tensor in
 another format, in moments of diagonal functional tensors

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index bee61a8..1708e74 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -482,6 +482,8 @@ class FullTensor:
             The inner product of the two tensors.
 
         """
+        if not isinstance(tensor2, FullTensor):
+            tensor2 = tensor2.full()
         return np.sum(np.multiply(self.data, tensor2.data))
 
     def norm(self):
-- 
2.43.0


From 7227e9a5ef93087dd928547f291c5e605fc8a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:59 +0000
Subject: [PATCH 167/170] fix: FunctionalBasisArray: second moments with
 respect to a given measure used the basis' own measure

---
 .../bases/functional_basis_array.py           | 23 ++++++++++++++++++-
 .../sparse_tensor_product_functional_basis.py | 17 ++++++++++----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 952b66c..16e85bd 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -309,7 +309,28 @@ class FunctionalBasisArray(tensap.Function):
         """
         if dims is None:
             dims = range(self.basis.cardinal())
-        if not (self.basis == g.basis) or not self.basis.is_orthonormal:
+        if not (self.basis == g.basis):
+            raise NotImplementedError("Method not implemented.")
+
+        if measure is not None and measure != self.basis.measure:
+            basis = self.basis
+            if isinstance(basis, tensap.FullTensorProductFunctionalBasis):
+                basis = tensap.SparseTensorProductFunctionalBasis(
+                    basis.bases,
+                    tensap.MultiIndices.bounded_by(basis.bases.cardinals() - 1),
+                )
+            if not isinstance(
+                basis,
+                (
+                    tensap.PolynomialFunctionalBasis,
+                    tensap.SparseTensorProductFunctionalBasis,
+                ),
+            ):
+                raise NotImplementedError("Method not implemented.")
+            gram = basis.gram_matrix(measure)
+            return np.sum(self.data * np.tensordot(gram, g.data, 1), 0, keepdims=True)
+
+        if not self.basis.is_orthonormal:
             raise NotImplementedError("Method not implemented.")
 
         return self.dot(g, 0)
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index d88c48e..ca0bf3a 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -271,22 +271,29 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
             P[n <= n_unique[k], k] = True
         return P
 
-    def gram_matrix(
-        self,
-    ):
+    def gram_matrix(self, measure=None):
         """
         Return the gram matrix of the basis.
 
+        Parameters
+        ----------
+        measure : tensap.RandomVector or tensap.RandomVariable, optional
+            The measure used for the computation of the gram matrix. The
+            default is None, indicating to use the measures of the bases.
+
         Returns
         -------
         numpy.ndarray
             The gram matrix of the basis.
 
         """
-        if self.is_orthonormal:
+        if measure is None and self.is_orthonormal:
             M = speye(self.indices.cardinal())
         else:
-            G = self.bases.gram_matrices()
+            if measure is None:
+                G = self.bases.gram_matrices()
+            else:
+                G = self.bases.gram_matrices(None, measure)
             ind = self.indices.array
             M = G[0][np.ix_(ind[:, 0], ind[:, 0])]
             for i in np.arange(1, ind.shape[1]):
-- 
2.43.0


From 29a9a720fc2bdf1c6b8ad14313e614dacd9fb3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:12 +0000
Subject: [PATCH 168/170] fix: RandomVector: a dependence structure was
 silently dropped when copying, permuting, standardising or sampling

---
 tensap/functions/measures/random_vector.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 907491d..4e92fdc 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -39,6 +39,8 @@ class RandomVector(tensap.ProbabilityMeasure):
 
     def __init__(self, random_variables, order=None, copula=tensap.IndependentCopula()):
         if isinstance(random_variables, tensap.RandomVector):
+            if isinstance(copula, tensap.IndependentCopula):
+                copula = random_variables.copula
             random_variables = random_variables.random_variables
 
         if order is not None and isinstance(random_variables, tensap.RandomVariable):
@@ -137,7 +139,8 @@ class RandomVector(tensap.ProbabilityMeasure):
 
         """
         return RandomVector(
-            [x.get_standard_random_variable() for x in self.random_variables]
+            [x.get_standard_random_variable() for x in self.random_variables],
+            copula=self.copula,
         )
 
     def iso_probabilistic_grid(self, n):
@@ -192,6 +195,9 @@ class RandomVector(tensap.ProbabilityMeasure):
             each dimension.
 
         """
+        assert isinstance(
+            self.copula, tensap.IndependentCopula
+        ), "Not implemented for non IndenpendentCopula."
         from scipy.stats import qmc
 
         sampler = qmc.LatinHypercube(d=self.size)
@@ -378,6 +384,8 @@ class RandomVector(tensap.ProbabilityMeasure):
             The random vector with transposed (permuted) components.
 
         """
+        if not isinstance(self.copula, tensap.IndependentCopula):
+            raise NotImplementedError("Not implemented for non IndenpendentCopula.")
         return RandomVector(self.random_variables[perm])
 
     def random(self, n=1):
-- 
2.43.0


From 05983a6a4c9fd660b816de7abfd6235916f74aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:47 +0000
Subject: [PATCH 169/170] fix: SubFunctionalBasis.derivative: the derivatives
 of an orthonormal sub-basis were declared orthonormal

---
 tensap/approximation/bases/sub_functional_basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 91c387b..78345ae 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -162,6 +162,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
         """
         d_f = deepcopy(self)
         d_f.underlying_basis = self.underlying_basis.derivative(n)
+        d_f.is_orthonormal = False
         return d_f
 
     def eval_jacobian(self, x):
-- 
2.43.0


From bbe06069d7527d63e041921df32791fb81a0a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:28 +0000
Subject: [PATCH 170/170] fix: SparseTensorProductFunctionalBasis: the
 comparison of two bases of different cardinals failed

---
 .../bases/sparse_tensor_product_functional_basis.py         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index ca0bf3a..cfa57f6 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -73,7 +73,11 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         if not isinstance(G, SparseTensorProductFunctionalBasis):
             out = False
         else:
-            out = np.all(self.bases == G.bases) and np.all(self.indices == G.indices)
+            out = (
+                np.all(self.bases == G.bases)
+                and self.cardinal() == G.cardinal()
+                and np.all(self.indices == G.indices)
+            )
         return out
 
     def length(self):
-- 
2.43.0

