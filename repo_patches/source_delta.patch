From 39b6c7283416fd31015df2f471d5a2332f2c0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:50 +0000
Subject: [PATCH 01/69] fix: sum the weights of repeated edges in dense graphs

---
 src/graph_ensembles/graphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 227a1e1..40f2244 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -182,7 +182,7 @@ class Graph:
             self.adj = np.zeros(
                 (self.num_vertices, self.num_vertices), dtype=val_array.dtype
             )
-            self.adj[src_array, dst_array] = val_array
+            np.add.at(self.adj, (src_array, dst_array), val_array)
 
         else:
             self.weighted = False
@@ -847,7 +847,7 @@ class MultiGraph(Graph):
                 (self.num_labels, self.num_vertices, self.num_vertices),
                 dtype=val_array.dtype,
             )
-            self.adj[lbl_array, src_array, dst_array] = val_array
+            np.add.at(self.adj, (lbl_array, src_array, dst_array), val_array)
         else:
             self.adj = np.zeros(
                 (self.num_labels, self.num_vertices, self.num_vertices), dtype=bool
-- 
2.43.0


From bb465e86e17d9f3f06f615216aeaa5efbbcecf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:17 +0000
Subject: [PATCH 02/69] fix: keep fractional weights in dense strength by group

---
 src/graph_ensembles/graphs.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 40f2244..c61186a 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -252,7 +252,7 @@ class Graph:
         """Compute the undirected degree sequence to and from each group."""
         if not hasattr(self, "_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=False, weighted=False)
-            self._degree_by_group = self.sum_by_group(adj, self.groups)
+            self._degree_by_group = self.sum_by_group(adj, self.groups, np.int64)
 
         return self._degree_by_group
 
@@ -367,13 +367,13 @@ class Graph:
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def sum_by_group(mat, g_arr):
+    def sum_by_group(mat, g_arr, dtype=np.float64):
         """Sums the values of the matrix along the second axis using the
         provided grouping.
         """
         # Initialize empty result
         M = g_arr.max() + 1
-        res = np.zeros((mat.shape[0], M), dtype=np.int64)
+        res = np.zeros((mat.shape[0], M), dtype=dtype)
 
         # Count group occurrences
         for i in range(M):
@@ -551,8 +551,8 @@ class DiGraph(Graph):
         """Compute the out degree sequence to each group."""
         if not hasattr(self, "_out_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=True, weighted=False)
-            self._out_degree_by_group = self.sum_by_group(adj, self.groups)
-            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups)
+            self._out_degree_by_group = self.sum_by_group(adj, self.groups, np.int64)
+            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups, np.int64)
 
         return self._out_degree_by_group
 
@@ -560,8 +560,8 @@ class DiGraph(Graph):
         """Compute the in degree sequence from each group."""
         if not hasattr(self, "_in_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=True, weighted=False)
-            self._out_degree_by_group = self.sum_by_group(adj, self.groups)
-            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups)
+            self._out_degree_by_group = self.sum_by_group(adj, self.groups, np.int64)
+            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups, np.int64)
 
         return self._in_degree_by_group
 
-- 
2.43.0


From bde54e45a5e85f013b49cf1b196cb7bf500b3b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:17 +0000
Subject: [PATCH 03/69] fix: count self-loops and unweighted links once in the
 projection of dense multigraphs

---
 src/graph_ensembles/graphs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index c61186a..e2e5bbd 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -857,15 +857,16 @@ class MultiGraph(Graph):
     def adjacency_matrix(self, directed=False, weighted=False):
         """Return the adjacency matrix of the graph."""
         # Project tensor to two dimensions
-        adj = self.adj.sum(axis=0)
+        adj = self.adj.sum(axis=0, dtype=self.adj.dtype)
 
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
+            diag = np.diag(adj)
             adj = adj + adj.T
 
             # Remove double count diagonal
-            adj.ravel()[:: adj.shape[1] + 1] = np.diag(adj)
+            adj.ravel()[:: adj.shape[1] + 1] = diag
 
         else:
             adj = adj != 0
@@ -1122,17 +1123,18 @@ class MultiDiGraph(MultiGraph, DiGraph):
     def adjacency_matrix(self, directed=True, weighted=False):
         """Return the adjacency matrix of the graph."""
         # Project tensor to two dimensions
-        adj = self.adj.sum(axis=0)
+        adj = self.adj.sum(axis=0, dtype=self.adj.dtype)
 
         if directed and not weighted:
             adj = adj != 0
 
         elif not directed and weighted:
             # Symmetrize
+            diag = np.diag(adj)
             adj = adj + adj.T
 
             # Remove double count diagonal
-            adj.ravel()[:: adj.shape[1] + 1] = np.diag(adj)
+            adj.ravel()[:: adj.shape[1] + 1] = diag
 
         elif not directed and not weighted:
             adj = adj != 0
-- 
2.43.0


From 63f6e885804d5239cd7db269c063586091e8a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:17 +0000
Subject: [PATCH 04/69] fix: keep self-loops of unweighted sparse graphs in
 weighted measures

---
 src/graph_ensembles/sparse/graphs.py | 31 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index e4a826b..af92aac 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -215,11 +215,7 @@ class Graph:
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
-            adj = (
-                self.adj
-                + self.adj.T
-                - sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
-            )
+            adj = self.symmetrize(self.adj)
         else:
             adj = self.adj != 0
             adj = adj + adj.T
@@ -362,6 +358,17 @@ class Graph:
 
         return G
 
+    @staticmethod
+    def symmetrize(adj):
+        """Return the undirected version of adj counting self-loops once."""
+        sym = adj + adj.T
+
+        # A boolean sum is a logical or and does not double count the diagonal
+        if sym.dtype != bool:
+            sym = sym - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+
+        return sym
+
     @staticmethod
     def get_num_bytes(num_items):
         """Determine the number of bytes needed for storing ids for num_items."""
@@ -539,11 +546,7 @@ class DiGraph(Graph):
 
         elif not directed and weighted:
             # Symmetrize
-            adj = (
-                self.adj
-                + self.adj.T
-                - sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
-            )
+            adj = self.symmetrize(self.adj)
 
         else:
             adj = self.adj != 0
@@ -951,7 +954,7 @@ class MultiGraph(Graph):
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
-            adj = adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+            adj = self.symmetrize(adj)
 
         else:
             adj = adj != 0
@@ -967,7 +970,7 @@ class MultiGraph(Graph):
             sym = []
             for lbl in range(self.num_labels):
                 adj = self.adj[lbl]
-                sym.append(adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape))
+                sym.append(self.symmetrize(adj))
 
         else:
             sym = []
@@ -1225,7 +1228,7 @@ class MultiDiGraph(MultiGraph, DiGraph):
 
         elif not directed and weighted:
             # Symmetrize
-            adj = adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+            adj = self.symmetrize(adj)
 
         elif not directed and not weighted:
             adj = adj != 0
@@ -1248,7 +1251,7 @@ class MultiDiGraph(MultiGraph, DiGraph):
             adj = []
             for lbl in range(self.num_labels):
                 tmp = self.adj[lbl]
-                adj.append(tmp + tmp.T - sp.spdiags(tmp.diagonal(), 0, m=tmp.shape))
+                adj.append(self.symmetrize(tmp))
 
         else:
             adj = []
-- 
2.43.0


From 968b9b4011f2e974dcd17e663755cd3090032edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:17 +0000
Subject: [PATCH 05/69] fix: accept empty edge tables with non numeric vertex
 ids

---
 src/graph_ensembles/graphs.py        | 2 +-
 src/graph_ensembles/sparse/graphs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index e2e5bbd..794c628 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -165,7 +165,7 @@ class Graph:
         e["_dst"] = e["_dst"].map(lambda x: self.id_dict.get(x))
 
         # Check for nans
-        assert not (np.any(np.isnan(e["_src"])) or np.any(np.isnan(e["_dst"]))), msg
+        assert not (e["_src"].isna().any() or e["_dst"].isna().any()), msg
 
         # Extract values
         src_array = e["_src"].values.astype(self.id_dtype)
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index af92aac..26b7c0a 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -165,7 +165,7 @@ class Graph:
         e["_dst"] = e["_dst"].map(lambda x: self.id_dict.get(x))
 
         # Check for nans
-        assert not (np.any(np.isnan(e["_src"])) or np.any(np.isnan(e["_dst"]))), msg
+        assert not (e["_src"].isna().any() or e["_dst"].isna().any()), msg
 
         # Extract values
         src_array = e["_src"].values.astype(self.id_dtype)
-- 
2.43.0


From 8fdcec3d0b58eefc73b00430c79f281e712ed730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:33 +0000
Subject: [PATCH 06/69] fix: exclude a vertex from its own neighbourhood
 average when self-loops are disregarded

---
 src/graph_ensembles/graphs.py        | 19 +++++++++++++------
 src/graph_ensembles/sparse/graphs.py | 14 +++++++++++---
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 794c628..fa3f713 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -291,10 +291,13 @@ class Graph:
         # Compute correct degree
         deg = self.degree(recompute=deg_recompute)
 
+        # Without self-loops a node is not its own neighbour
+        adj = self.adjacency_matrix(directed=False, weighted=False)
+        if not selfloops:
+            deg = deg - np.diag(adj)
+
         # It is necessary to select the elements or pickling will fail
-        av_nn = self.av_nn_prop(
-            self.adjacency_matrix(directed=False, weighted=False), prop, selfloops
-        )
+        av_nn = self.av_nn_prop(adj, prop, selfloops)
 
         # Test that mask is the same
         ind = deg != 0
@@ -302,7 +305,7 @@ class Graph:
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
@@ -386,7 +389,7 @@ class Graph:
         """Computes the sum of the nearest neighbours' properties."""
         # If no self loops remove diagonal
         if not selfloops:
-            adj.ravel()[:: adj.shape[1] + 1] = 0
+            np.fill_diagonal(adj, 0)
 
         # Compute sum
         res = adj.dot(prop)
@@ -629,6 +632,10 @@ class DiGraph(Graph):
         else:
             raise ValueError("Neighbourhood direction not recognised.")
 
+        # Without self-loops a node is not its own neighbour
+        if not selfloops:
+            deg = deg - np.diag(adj)
+
         # It is necessary to select the elements or pickling will fail
         av_nn = self.av_nn_prop(adj, prop, selfloops)
 
@@ -638,7 +645,7 @@ class DiGraph(Graph):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 26b7c0a..400901b 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -306,8 +306,12 @@ class Graph:
         if sp.issparse(prop):
             prop = prop.todense()
 
-        # It is necessary to select the elements or pickling will fail
+        # Without self-loops a node is not its own neighbour
         adj = self.adjacency_matrix(directed=False, weighted=False)
+        if not selfloops:
+            deg = deg - adj.diagonal()
+
+        # It is necessary to select the elements or pickling will fail
         av_nn = self.av_nn_prop(adj.indptr, adj.indices, prop, selfloops)
 
         # Test that mask is the same
@@ -316,7 +320,7 @@ class Graph:
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
@@ -702,6 +706,10 @@ class DiGraph(Graph):
         else:
             raise ValueError("Neighbourhood direction not recognised.")
 
+        # Without self-loops a node is not its own neighbour
+        if not selfloops:
+            deg = deg - adj.diagonal()
+
         if sp.issparse(prop):
             prop = prop.todense()
 
@@ -714,7 +722,7 @@ class DiGraph(Graph):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         return av_nn
 
-- 
2.43.0


From dc7f16f7ec691980bca84d29e4fc11a13c8aa146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:45 +0000
Subject: [PATCH 07/69] fix: do not reuse the stored average nn degree of
 graphs for another choice of self-loops

---
 src/graph_ensembles/graphs.py        | 18 ++++++++++++------
 src/graph_ensembles/sparse/graphs.py | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index fa3f713..427661f 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -313,10 +313,12 @@ class Graph:
         """Computes the average nearest neighbour degree of each node."""
         # Compute property name
         name = "av_nn_degree"
-        if not hasattr(self, name) or recompute or deg_recompute:
-            if selfloops is None:
-                selfloops = self.selfloops
+        if selfloops is None:
+            selfloops = self.selfloops
 
+        # The stored result is only valid for the same choice of self-loops
+        flag = name + "_selfloops"
+        if getattr(self, flag, None) != selfloops or recompute or deg_recompute:
             # Compute correct degree
             deg = self.degree(recompute=deg_recompute)
 
@@ -324,6 +326,7 @@ class Graph:
                 deg, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, flag, selfloops)
 
         return getattr(self, name)
 
@@ -664,10 +667,12 @@ class DiGraph(Graph):
         """
         # Compute property name
         name = "av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
-        if not hasattr(self, name) or recompute or deg_recompute:
-            if selfloops is None:
-                selfloops = self.selfloops
+        if selfloops is None:
+            selfloops = self.selfloops
 
+        # The stored result is only valid for the same choice of self-loops
+        flag = name + "_selfloops"
+        if getattr(self, flag, None) != selfloops or recompute or deg_recompute:
             # Compute correct degree
             if ddir == "out":
                 deg = self.out_degree(recompute=deg_recompute)
@@ -683,6 +688,7 @@ class DiGraph(Graph):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, flag, selfloops)
 
         return getattr(self, name)
 
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 400901b..5f5616d 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -328,10 +328,12 @@ class Graph:
         """Computes the average nearest neighbour degree of each node."""
         # Compute property name
         name = "av_nn_degree"
-        if not hasattr(self, name) or recompute or deg_recompute:
-            if selfloops is None:
-                selfloops = self.selfloops
+        if selfloops is None:
+            selfloops = self.selfloops
 
+        # The stored result is only valid for the same choice of self-loops
+        flag = name + "_selfloops"
+        if getattr(self, flag, None) != selfloops or recompute or deg_recompute:
             # Compute correct degree
             deg = self.degree(recompute=deg_recompute)
 
@@ -339,6 +341,7 @@ class Graph:
                 deg, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, flag, selfloops)
 
         return getattr(self, name)
 
@@ -741,10 +744,12 @@ class DiGraph(Graph):
         """
         # Compute property name
         name = "av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
-        if not hasattr(self, name) or recompute or deg_recompute:
-            if selfloops is None:
-                selfloops = self.selfloops
+        if selfloops is None:
+            selfloops = self.selfloops
 
+        # The stored result is only valid for the same choice of self-loops
+        flag = name + "_selfloops"
+        if getattr(self, flag, None) != selfloops or recompute or deg_recompute:
             # Compute correct degree
             if ddir == "out":
                 deg = self.out_degree(recompute=deg_recompute)
@@ -760,6 +765,7 @@ class DiGraph(Graph):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, flag, selfloops)
 
         return getattr(self, name)
 
-- 
2.43.0


From 1e99591b3b8d384725a67f7531e2e3e84396050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:56 +0000
Subject: [PATCH 08/69] fix: sum reciprocal edges when exporting undirected
 multigraphs to networkx

---
 src/graph_ensembles/graphs.py        | 5 +++--
 src/graph_ensembles/sparse/graphs.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 427661f..c6a1bc3 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -967,7 +967,8 @@ class MultiGraph(Graph):
             lbl_list[i] = lbl_id
 
         # Add edges per layer
-        lbl, row, col = np.nonzero(self.adj)
+        adj = np.triu(self.adjacency_tensor(directed=False, weighted=True))
+        lbl, row, col = np.nonzero(adj)
         G.add_edges_from(
             zip(
                 row,
@@ -975,7 +976,7 @@ class MultiGraph(Graph):
                 lbl,
                 [
                     dict(weight=i, label=lbl_list[j])
-                    for i, j in zip(self.adj[self.adj != 0].ravel(), lbl)
+                    for i, j in zip(adj[adj != 0].ravel(), lbl)
                 ],
             )
         )
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 5f5616d..970e5eb 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -1066,8 +1066,9 @@ class MultiGraph(Graph):
             lbl_list[i] = lbl_id
 
         # Add edges per layer
+        sym = self.adjacency_tensor(directed=False, weighted=True)
         for k in range(self.num_labels):
-            adj = self.adj[k].tocoo()
+            adj = sp.triu(sym[k]).tocoo()
             lbl = np.empty(adj.nnz)
             lbl[:] = k
             G.add_edges_from(
-- 
2.43.0


From e92bc67c1817d61ace5986a7cbda37c84e1499bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:55 +0000
Subject: [PATCH 09/69] fix: count labels and not vertices in the dense
 expected number of edges per label

---
 src/graph_ensembles/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index df3b200..366ee09 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1734,7 +1734,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         """Compute the expected number of edges with one parameter controlling
         for the density for each label.
         """
-        num_labels = len(prop_out)
+        num_labels = prop_out.shape[1]
         exp_edges = np.zeros(num_labels, dtype=np.float64)
 
         for k in range(num_labels):
-- 
2.43.0


From ba52cdb9ea3887ec6190fb81c18d7ad1b25bab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:55 +0000
Subject: [PATCH 10/69] fix: convert sparse inputs of dense models to arrays
 and not to matrices

---
 src/graph_ensembles/models.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 366ee09..ed6881e 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -300,7 +300,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.todense() != 0
+            adj = g.toarray() != 0
         elif isinstance(g, np.ndarray):
             adj = g != 0
         else:
@@ -831,7 +831,7 @@ class RandomDiGraph(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.todense()
+            adj = g.toarray()
         elif isinstance(g, np.ndarray):
             adj = g != 0
         else:
@@ -1547,7 +1547,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             adj = g.adjacency_matrix(directed=True, weighted=False)
             tensor = False
         elif sp.issparse(g):
-            adj = g.todense()
+            adj = g.toarray()
             tensor = False
         elif isinstance(g, np.ndarray):
             if g.ndim == 3:
@@ -1559,7 +1559,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list) and sp.issparse(g[0]):
-            adj = [x.todense() for x in g]
+            adj = [x.toarray() for x in g]
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
@@ -1663,7 +1663,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         else:
             # Check dimensions
             if sp.issparse(out_strength_label):
-                out_strength_label = out_strength_label.todense()
+                out_strength_label = out_strength_label.toarray()
 
             if isinstance(out_strength_label, np.ndarray):
                 msg = (
@@ -1682,7 +1682,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             s_in_l = self.prop_in
         else:
             if sp.issparse(in_strength_label):
-                in_strength_label = in_strength_label.todense()
+                in_strength_label = in_strength_label.toarray()
 
             if isinstance(in_strength_label, np.ndarray):
                 msg = (
@@ -2000,9 +2000,9 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
 
         # Convert to dense arrays
         if sp.issparse(self.prop_out):
-            self.prop_out = self.prop_out.todense()
+            self.prop_out = self.prop_out.toarray()
         if sp.issparse(self.prop_in):
-            self.prop_in = self.prop_in.todense()
+            self.prop_in = self.prop_in.toarray()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out < 0):
-- 
2.43.0


From 042aa6ca0665904864cf81753b6eaf4da272cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:29 +0000
Subject: [PATCH 11/69] fix: count each pair of vertices once in the sparse
 expected degree by label

---
 src/graph_ensembles/spark/models.py            | 4 ++++
 src/graph_ensembles/sparse/models/ensembles.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index ece4f12..cf56098 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2748,6 +2748,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     pij = p_ijk(param, f_out_i, f_in_j, pdyad(ind_i, ind_j))
 
                     if (ind_i in ind_in) and (ind_j in ind_out):
+                        if ind_i < ind_j:
+                            # Pair is counted when found in the opposite order
+                            continue
+
                         f_in_i = prop_in[np.where(ind_in == ind_i)][0]
                         f_out_j = prop_out[np.where(ind_out == ind_j)][0]
                         pji = p_ijk(param, f_out_j, f_in_i, pdyad(ind_i, ind_j))
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 424ee6e..5183f27 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -1007,6 +1007,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     else:
                         p_out_j = 0.0
 
+                    if i < j and np.any(loc_i) and np.any(loc_j):
+                        # Pair is counted when found in the opposite order
+                        continue
+
                     if i != j:
                         pij = p_ijk(param[lbl], p_out_i, p_in_j, prop_dyad(i, j))
                         pji = p_ijk(param[lbl], p_out_j, p_in_i, prop_dyad(j, i))
-- 
2.43.0


From 2c46db446e6cdc8e9dae786a1f40618f82df56bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:29 +0000
Subject: [PATCH 12/69] fix: allow empty expected degrees by label in spark
 models

---
 src/graph_ensembles/spark/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index cf56098..05b2c1f 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2093,9 +2093,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
             # Initialize results
             res = tmp.fold(([], [], []), lambda x, y: app_fun(x, y))
-            d = np.array(res[0])
-            d_out = np.array(res[1])
-            d_in = np.array(res[2])
+            d = np.array(res[0]).reshape(-1, 3)
+            d_out = np.array(res[1]).reshape(-1, 3)
+            d_in = np.array(res[2]).reshape(-1, 3)
             self._exp_degree_label = sp.coo_array(
                 (d[:, 2], (d[:, 0], d[:, 1])),
                 shape=(self.num_vertices, self.num_labels),
-- 
2.43.0


From 281d399933de567e9f5df8dd1bd39f747012db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:28 +0000
Subject: [PATCH 13/69] fix: do not take stored zeros and repeated entries of
 sparse matrices for links

---
 src/graph_ensembles/spark/models.py              | 12 ++++++------
 src/graph_ensembles/sparse/models/conditional.py |  2 +-
 src/graph_ensembles/sparse/models/ensembles.py   |  6 +++---
 src/graph_ensembles/sparse/models/random.py      |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 05b2c1f..0849c9c 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -329,7 +329,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -398,7 +398,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -1194,7 +1194,7 @@ class RandomDiGraph(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -2280,7 +2280,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             adj = g.adjacency_matrix(directed=True, weighted=False)
             tensor = False
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
             tensor = False
         elif isinstance(g, np.ndarray):
             if g.ndim == 3:
@@ -2292,7 +2292,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list):
-            adj = [sp.csr_matrix(x) for x in g]
+            adj = [sp.csr_matrix(x) != 0 for x in g]
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
@@ -2417,7 +2417,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 5fd068c..10b78db 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -278,7 +278,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 5183f27..d819023 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -294,7 +294,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
@@ -715,7 +715,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             adj = g.adjacency_matrix(directed=True, weighted=False)
             tensor = False
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
             tensor = False
         elif isinstance(g, np.ndarray):
             if g.ndim == 3:
@@ -727,7 +727,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list):
-            adj = [sp.csr_array(x) for x in g]
+            adj = [sp.csr_array(x) != 0 for x in g]
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 8dcebfe..efbf0cf 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -291,7 +291,7 @@ class RandomDiGraph(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = g.asformat("csr") != 0
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
-- 
2.43.0


From 658783d2f88c92f8a3dafbd040226a0b9122e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:28 +0000
Subject: [PATCH 14/69] fix: accept a list of sparse matrices in the likelihood
 of dense labelled models

---
 src/graph_ensembles/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index ed6881e..9e08374 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1559,7 +1559,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list) and sp.issparse(g[0]):
-            adj = [x.toarray() for x in g]
+            adj = np.array([x.toarray() for x in g])
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
-- 
2.43.0


From 4c787347b8913793cbc3927c5680432904d1961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:28 +0000
Subject: [PATCH 15/69] fix: honour the selfloops argument of log_likelihood

---
 src/graph_ensembles/models.py                  | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 9e08374..6426794 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -325,7 +325,7 @@ class DiGraphEnsemble(GraphEnsemble):
             self.prop_in,
             self.prop_dyad,
             adj,
-            self.selfloops,
+            selfloops,
         )
 
         return like
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index d819023..eb6b775 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -320,7 +320,7 @@ class DiGraphEnsemble(GraphEnsemble):
             self.prop_dyad,
             adj.indptr,
             adj.indices,
-            self.selfloops,
+            selfloops,
         )
 
         return like
-- 
2.43.0


From 07d657fcade11f6a7bd5bc5003dafd11d253f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:28 +0000
Subject: [PATCH 16/69] fix: a graph with self-loops has no likelihood if
 self-loops are not allowed

---
 src/graph_ensembles/models.py                  | 4 ++++
 src/graph_ensembles/spark/models.py            | 6 ++++++
 src/graph_ensembles/sparse/models/ensembles.py | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 6426794..d3dfb64 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -506,6 +506,8 @@ class DiGraphEnsemble(GraphEnsemble):
                     if isinf(tmp):
                         return tmp
                     like += tmp
+                elif adj[i, j] != 0:
+                    return -np.infty
 
         return like
 
@@ -1806,6 +1808,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                             return tmp
 
                         like += tmp
+                    elif adj[k, i, j] != 0:
+                        return -np.infty
 
         return like
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 0849c9c..19403cc 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -722,6 +722,8 @@ class DiGraphEnsemble(GraphEnsemble):
                     if isinf(tmp):
                         return tmp
                     like += tmp
+                elif ind_j in j_list:
+                    return -np.infty
 
         return like
 
@@ -2920,6 +2922,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     if isinf(tmp):
                         return tmp
                     like += tmp
+                elif f_in_j in j_list:
+                    return -np.infty
 
         return like
 
@@ -2977,6 +2981,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     if isinf(tmp):
                         return tmp
                     like += tmp
+                elif j in j_list:
+                    return -np.infty
         return like
 
     @staticmethod
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index eb6b775..b0c5f77 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -508,6 +508,8 @@ class DiGraphEnsemble(GraphEnsemble):
                     if isinf(tmp):
                         return tmp
                     like += tmp
+                elif j in j_list:
+                    return -np.infty
 
         return like
 
@@ -1101,6 +1103,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     if isinf(tmp):
                         return tmp
                     like += tmp
+                elif j in j_list:
+                    return -np.infty
         return like
 
     @staticmethod
-- 
2.43.0


From dd43eb808c7d2e32d5467f7b4800f511e1286f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:28 +0000
Subject: [PATCH 17/69] fix: likelihood of random graphs with zero or unit link
 probability

---
 src/graph_ensembles/models.py               | 28 ++++++++++-----------
 src/graph_ensembles/spark/models.py         | 26 ++++++++++---------
 src/graph_ensembles/sparse/models/random.py | 26 ++++++++++---------
 3 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index d3dfb64..0933a95 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -850,23 +850,23 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (np.count_nonzero(adj) > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (np.count_nonzero(adj) != 0):
-            return -np.infty
-
-        like = np.count_nonzero(adj) * log(self.param[0])
+        num_links = np.count_nonzero(adj)
+        num_pairs = self.num_vertices * (self.num_vertices - 1)
         if selfloops:
-            like += (self.num_vertices**2 - np.count_nonzero(adj)) * log1p(
-                -self.param[0]
-            )
-        else:
-            like += (
-                self.num_vertices * (self.num_vertices - 1) - np.count_nonzero(adj)
-            ) * log1p(-self.param[0])
+            num_pairs = self.num_vertices**2
+        elif np.count_nonzero(adj.ravel()[:: adj.shape[1] + 1]) > 0:
             # Ensure that the matrix has no elements on the diagonal
-            if np.count_nonzero(adj.ravel()[:: adj.shape[1] + 1]) > 0:
+            return -np.infty
+
+        like = 0.0
+        if num_links > 0:
+            if self.param[0] == 0:
+                return -np.infty
+            like += num_links * log(self.param[0])
+        if num_links < num_pairs:
+            if self.param[0] == 1:
                 return -np.infty
+            like += (num_pairs - num_links) * log1p(-self.param[0])
 
         return like
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 19403cc..2142adc 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1213,21 +1213,23 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (adj.nnz > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (adj.nnz != 0):
-            return -np.infty
-
-        like = adj.nnz * log(self.param[0])
+        num_links = adj.nnz
+        num_pairs = self.num_vertices * (self.num_vertices - 1)
         if selfloops:
-            like += (self.num_vertices**2 - adj.nnz) * log1p(-self.param[0])
-        else:
-            like += (self.num_vertices * (self.num_vertices - 1) - adj.nnz) * log1p(
-                -self.param[0]
-            )
+            num_pairs = self.num_vertices**2
+        elif adj.diagonal().sum() > 0:
             # Ensure that the matrix has no elements on the diagonal
-            if adj.diagonal().sum() > 0:
+            return -np.infty
+
+        like = 0.0
+        if num_links > 0:
+            if self.param[0] == 0:
+                return -np.infty
+            like += num_links * log(self.param[0])
+        if num_links < num_pairs:
+            if self.param[0] == 1:
                 return -np.infty
+            like += (num_pairs - num_links) * log1p(-self.param[0])
 
         return like
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index efbf0cf..8280956 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -308,21 +308,23 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (adj.nnz > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (adj.nnz != 0):
-            return -np.infty
-
-        like = adj.nnz * log(self.param[0])
+        num_links = adj.nnz
+        num_pairs = self.num_vertices * (self.num_vertices - 1)
         if selfloops:
-            like += (self.num_vertices**2 - adj.nnz) * log1p(-self.param[0])
-        else:
-            like += (self.num_vertices * (self.num_vertices - 1) - adj.nnz) * log1p(
-                -self.param[0]
-            )
+            num_pairs = self.num_vertices**2
+        elif adj.diagonal().sum() > 0:
             # Ensure that the matrix has no elements on the diagonal
-            if adj.diagonal().sum() > 0:
+            return -np.infty
+
+        like = 0.0
+        if num_links > 0:
+            if self.param[0] == 0:
+                return -np.infty
+            like += num_links * log(self.param[0])
+        if num_links < num_pairs:
+            if self.param[0] == 1:
                 return -np.infty
+            like += (num_pairs - num_links) * log1p(-self.param[0])
 
         return like
 
-- 
2.43.0


From 032e25cb6f1b6ba81c19f125833d830c19def39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:07 +0000
Subject: [PATCH 18/69] fix: store model parameters as floats so that integer
 products do not overflow

---
 src/graph_ensembles/models.py                    | 4 ++++
 src/graph_ensembles/spark/models.py              | 4 ++++
 src/graph_ensembles/sparse/models/conditional.py | 2 ++
 src/graph_ensembles/sparse/models/fitness.py     | 2 ++
 src/graph_ensembles/sparse/models/random.py      | 2 ++
 5 files changed, 14 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 0933a95..510dfba 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -660,6 +660,8 @@ class RandomDiGraph(DiGraphEnsemble):
             if np.any(self.param < 0):
                 raise ValueError("Parameters must be positive.")
 
+            self.param = self.param.astype(np.float64)
+
         if not (hasattr(self, "num_edges") or hasattr(self, "param")):
             raise ValueError("Either num_edges or param must be set.")
 
@@ -1182,6 +1184,8 @@ class FitnessModel(DiGraphEnsemble):
             if np.any(self.param < 0):
                 raise ValueError("Parameters must be positive.")
 
+            self.param = self.param.astype(np.float64)
+
         if not (hasattr(self, "num_edges") or hasattr(self, "param")):
             raise ValueError("Either num_edges or param must be set.")
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 2142adc..f66977b 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -957,6 +957,8 @@ class RandomDiGraph(DiGraphEnsemble):
             if np.any(self.param < 0):
                 raise ValueError("Parameters must be positive.")
 
+            self.param = self.param.astype(np.float64)
+
         if not (hasattr(self, "num_edges") or hasattr(self, "param")):
             raise ValueError("Either num_edges or param must be set.")
 
@@ -1556,6 +1558,8 @@ class FitnessModel(DiGraphEnsemble):
             if np.any(self.param < 0):
                 raise ValueError("Parameters must be positive.")
 
+            self.param = self.param.astype(np.float64)
+
         if not (hasattr(self, "num_edges") or hasattr(self, "param")):
             raise ValueError("Either num_edges or param must be set.")
 
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 10b78db..8d7472a 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -187,6 +187,8 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             if np.any(self.param < 0):
                 raise ValueError("Parameters must be positive.")
 
+            self.param = self.param.astype(np.float64)
+
         if not (hasattr(self, "num_edges") or hasattr(self, "param")):
             raise ValueError("Either num_edges or param must be set.")
 
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 6a02a46..06145dc 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -159,6 +159,8 @@ class FitnessModel(DiGraphEnsemble):
             if np.any(self.param < 0):
                 raise ValueError("Parameters must be positive.")
 
+            self.param = self.param.astype(np.float64)
+
         if not (hasattr(self, "num_edges") or hasattr(self, "param")):
             raise ValueError("Either num_edges or param must be set.")
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 8280956..f9b67a1 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -118,6 +118,8 @@ class RandomDiGraph(DiGraphEnsemble):
             if np.any(self.param < 0):
                 raise ValueError("Parameters must be positive.")
 
+            self.param = self.param.astype(np.float64)
+
         if not (hasattr(self, "num_edges") or hasattr(self, "param")):
             raise ValueError("Either num_edges or param must be set.")
 
-- 
2.43.0


From 4808a497078a631ccc0f509f0b0011a0603a735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:07 +0000
Subject: [PATCH 19/69] fix: evaluate the log of the complement of the fitness
 probability without cancellation

---
 src/graph_ensembles/models.py                | 4 ++--
 src/graph_ensembles/spark/models.py          | 4 ++--
 src/graph_ensembles/sparse/models/fitness.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 510dfba..27350a6 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1347,7 +1347,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class ScaleInvariantModel(FitnessModel):
@@ -2433,7 +2433,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiInvariantModel(MultiFitnessModel):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index f66977b..91ff187 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1792,7 +1792,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class ScaleInvariantModel(FitnessModel):
@@ -3863,7 +3863,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiInvariantModel(MultiFitnessModel):
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 06145dc..e272b65 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -327,7 +327,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiFitnessModel(MultiDiGraphEnsemble):
@@ -1005,4 +1005,4 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
-- 
2.43.0


From 8e4286d72419fa540f7b2bf30480b1be8d1ddf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:24 +0000
Subject: [PATCH 20/69] fix: keep small and large layer probabilities in the
 fitness model with labels

---
 src/graph_ensembles/models.py                | 20 ++++++++---------
 src/graph_ensembles/spark/models.py          | 22 +++++++++----------
 src/graph_ensembles/sparse/models/fitness.py | 23 ++++++++++----------
 3 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 27350a6..84c2f53 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2336,7 +2336,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         properties must be a tuple (indices, values) from a sparse matrix.
         """
         # Initialize result
-        val = np.float64(1.0)
+        val = np.float64(0.0)
 
         # Loop over all possibilities
         for i, (x_i, y_i) in enumerate(zip(prop_out, prop_in)):
@@ -2345,16 +2345,16 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 if isinf(tmp):
                     return 1.0
                 else:
-                    val /= 1 + tmp
+                    val += log1p(tmp)
 
-        return 1 - val
+        return -expm1(-val)
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def logp(d, prop_out, prop_in, prop_dyad):
         """Compute the log probability of connection between node i and j."""
         # Initialize result
-        val = np.float64(1.0)
+        val = np.float64(0.0)
 
         # Loop over all possibilities
         for i, (x_i, y_i) in enumerate(zip(prop_out, prop_in)):
@@ -2363,12 +2363,12 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 if isinf(tmp):
                     return 0.0
                 else:
-                    val /= 1 + tmp
+                    val += log1p(tmp)
 
-        if val == 1.0:
+        if val == 0.0:
             return -np.infty
         else:
-            return log1p(-val)
+            return log(-expm1(-val))
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -2377,7 +2377,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         node i and j.
         """
         # Initialize result
-        val = np.float64(1.0)
+        val = np.float64(0.0)
 
         # Loop over all possibilities
         for i, (x_i, y_i) in enumerate(zip(prop_out, prop_in)):
@@ -2386,9 +2386,9 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 if isinf(tmp):
                     return -np.infty
                 else:
-                    val /= 1 + tmp
+                    val += log1p(tmp)
 
-        return log(val)
+        return -val
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 91ff187..38fb069 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3738,7 +3738,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         while i < len(x_lbl) and j < len(y_lbl):
@@ -3748,7 +3748,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return 1.0
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -3756,7 +3756,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        return 1 - val
+        return -expm1(-val)
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -3765,7 +3765,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         while i < len(x_lbl) and j < len(y_lbl):
@@ -3775,7 +3775,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return 0.0
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -3783,10 +3783,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        if val == 1.0:
+        if val == 0.0:
             return -np.infty
         else:
-            return log1p(-val)
+            return log(-expm1(-val))
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -3797,7 +3797,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         while i < len(x_lbl) and j < len(y_lbl):
@@ -3807,7 +3807,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return -np.infty
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -3815,10 +3815,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        if val == 1.0:
+        if val == 0.0:
             return 0.0
         else:
-            return log(val)
+            return -val
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index e272b65..435dbce 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -7,6 +7,7 @@ import scipy.sparse as sp
 from . import graphs
 import numpy as np
 from numba import jit
+from math import expm1
 from math import isinf
 from numba.typed import List
 from math import log
@@ -868,7 +869,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         x_lbl = prop_out[0]
@@ -882,7 +883,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return 1.0
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -890,7 +891,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        return 1 - val
+        return -expm1(-val)
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -899,7 +900,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         x_lbl = prop_out[0]
@@ -913,7 +914,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return 0.0
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -921,10 +922,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        if val == 1.0:
+        if val == 0.0:
             return -np.infty
         else:
-            return log1p(-val)
+            return log(-expm1(-val))
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -935,7 +936,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # Initialize result
         i = 0
         j = 0
-        val = 1.0
+        val = 0.0
 
         # Loop over all possibilities
         x_lbl = prop_out[0]
@@ -949,7 +950,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     if isinf(tmp):
                         return -np.infty
                     else:
-                        val /= 1 + tmp
+                        val += log1p(tmp)
                 i += 1
                 j += 1
             elif x_lbl[i] < y_lbl[j]:
@@ -957,10 +958,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             else:
                 j += 1
 
-        if val == 1.0:
+        if val == 0.0:
             return 0.0
         else:
-            return log(val)
+            return -val
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-- 
2.43.0


From 414f9118fc2b9be62113037ad289261e1ab9a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:19 +0000
Subject: [PATCH 21/69] fix: honour the selfloops argument when sampling

---
 src/graph_ensembles/models.py                    | 16 ++++++++--------
 src/graph_ensembles/spark/models.py              | 10 ++++------
 src/graph_ensembles/sparse/models/conditional.py |  6 +++---
 src/graph_ensembles/sparse/models/ensembles.py   |  8 ++++----
 src/graph_ensembles/sparse/models/random.py      |  8 ++++----
 5 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 84c2f53..9920436 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -379,7 +379,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices), dtype=bool)
             g.adj[rows, cols] = True
@@ -396,7 +396,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_dyad,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices))
             g.adj[rows, cols] = vals
@@ -916,7 +916,7 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices), dtype=bool)
             g.adj[rows, cols] = True
@@ -924,11 +924,11 @@ class RandomDiGraph(DiGraphEnsemble):
             g.adj = np.zeros((g.num_vertices, g.num_vertices))
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             g.adj[rows, cols] = vals
         elif weights == "cremb":
@@ -938,7 +938,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
             g.adj[rows, cols] = vals
         else:
@@ -1711,7 +1711,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -1723,7 +1723,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.prop_dyad,
                 s_out_l,
                 s_in_l,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 38fb069..fd0b167 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1279,17 +1279,17 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "random":
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
         elif weights == "cremb":
             if out_strength is None:
@@ -1297,7 +1297,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
@@ -2569,7 +2569,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         if weights is None:
             e_fun = self._binary_sample_layer
-            selfloops = self.selfloops
             p_ijk = self.p_ijk
             pdyad = self.prop_dyad
             delta = self.param
@@ -2597,7 +2596,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         elif weights == "cremb":
             e_fun = self._cremb_sample_layer
-            selfloops = self.selfloops
             p_ijk = self.p_ijk
             pdyad = self.prop_dyad
             delta = self.param
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 8d7472a..f4cf413 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -383,7 +383,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.groups,
                 self.adj.indptr,
                 self.adj.indices,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -401,7 +401,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.adj.indices,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         elif weights == "wagg":
             if out_strength is None:
@@ -419,7 +419,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.adj.data,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index b0c5f77..b322f0f 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -374,7 +374,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -390,7 +390,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_dyad,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
@@ -926,7 +926,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     prop_out[i],
                     prop_in[i],
                     self.prop_dyad,
-                    self.selfloops,
+                    selfloops,
                 )
                 vals = np.ones(len(rows), dtype=bool)
             elif weights == "cremb":
@@ -938,7 +938,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.prop_dyad,
                     s_out_l[i],
                     s_in_l[i],
-                    self.selfloops,
+                    selfloops,
                 )
             else:
                 raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index f9b67a1..bf561a1 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -374,17 +374,17 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "random":
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
         elif weights == "cremb":
             if out_strength is None:
@@ -392,7 +392,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
-- 
2.43.0


From d11b602a4e351b2554b53e1b9952aa4c9d99a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:56 +0000
Subject: [PATCH 22/69] fix: return the weights of weighted samples of the
 random model

---
 src/graph_ensembles/models.py               | 6 ++++--
 src/graph_ensembles/spark/models.py         | 6 ++++--
 src/graph_ensembles/sparse/models/random.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 9920436..05ec6cf 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -978,7 +978,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -996,7 +996,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1017,6 +1017,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index fd0b167..ec8b688 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1341,7 +1341,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1359,7 +1359,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1380,6 +1380,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index bf561a1..5e30c42 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -436,7 +436,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -454,7 +454,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -478,6 +478,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
-- 
2.43.0


From 2ba57307669a92cbbbb332c1ec7027bbea5e95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:56 +0000
Subject: [PATCH 23/69] fix: expected total weight of the random model

---
 src/graph_ensembles/models.py               | 6 +++---
 src/graph_ensembles/spark/models.py         | 6 +++---
 src/graph_ensembles/sparse/models/random.py | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 05ec6cf..4764704 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -666,7 +666,7 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Either num_edges or param must be set.")
 
         # Check if weight information is present
-        if not hasattr(self, "discrete_weights") and hasattr(self, "total_weight"):
+        if not hasattr(self, "discrete_weights"):
             self.discrete_weights = False
 
         # Ensure total weight is a number
@@ -724,9 +724,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index ec8b688..7ccb8d5 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -963,7 +963,7 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Either num_edges or param must be set.")
 
         # Check if weight information is present
-        if not hasattr(self, "discrete_weights") and hasattr(self, "total_weight"):
+        if not hasattr(self, "discrete_weights"):
             self.discrete_weights = False
 
         # Ensure total weight is a number
@@ -1084,9 +1084,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 5e30c42..e0876d8 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -124,7 +124,7 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Either num_edges or param must be set.")
 
         # Check if weight information is present
-        if not hasattr(self, "discrete_weights") and hasattr(self, "total_weight"):
+        if not hasattr(self, "discrete_weights"):
             self.discrete_weights = False
 
         # Ensure total weight is a number
@@ -182,9 +182,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
-- 
2.43.0


From 0ea8d5054b23cea952d37096176feeed249f5c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:06 +0000
Subject: [PATCH 24/69] fix: weight of a sampled link whose vertices have no
 strength on one side only

---
 src/graph_ensembles/spark/models.py            | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 7ccb8d5..0dded4c 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3101,7 +3101,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         cols.append(j)
                         ind_out = s_out_ind == i
                         ind_in = s_in_ind == j
-                        if np.any(ind_out) or np.any(ind_in):
+                        if np.any(ind_out) and np.any(ind_in):
                             vals.append(
                                 rng.exponential(
                                     s_out_val[ind_out][0]
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index b322f0f..67b0eab 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -1147,7 +1147,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         cols.append(j)
                         ind_out = s_out[0] == i
                         ind_in = s_in[0] == j
-                        if np.any(ind_out) or np.any(ind_in):
+                        if np.any(ind_out) and np.any(ind_in):
                             vals.append(
                                 rng.exponential(
                                     s_out[1][ind_out][0]
-- 
2.43.0


From 2c219c3ed1cb09cc38a49fe2167ea66c82679b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 25/69] fix: weighted samples of dense models with labels

---
 src/graph_ensembles/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 4764704..783490b 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1841,13 +1841,11 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def _cremb_sample_layer(
+    def _cremb_sample_tensor(
         p_ijk, param, prop_out, prop_in, prop_dyad, s_out, s_in, selfloops
     ):
         """Sample from the ensemble with weights from the CremB model."""
-        s_tot = np.sum(s_out[1])
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in[1]) / s_tot) < 1e-6, msg
 
         lbls = List()
         rows = List()
@@ -1855,6 +1853,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         vals = List()
 
         for k in range(prop_out.shape[1]):
+            s_tot = np.sum(s_out[:, k])
+            assert np.abs(s_tot - np.sum(s_in[:, k])) <= 1e-6 * s_tot, msg
             for i, p_out_i in enumerate(prop_out[:, k]):
                 for j, p_in_j in enumerate(prop_in[:, k]):
                     if (i != j) | selfloops:
-- 
2.43.0


From 6afcf11e60e379986b5de98319cc30a7f5b63ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 26/69] fix: allow layers with no strength in weighted samples

---
 src/graph_ensembles/models.py                    | 4 ++--
 src/graph_ensembles/spark/models.py              | 6 +++---
 src/graph_ensembles/sparse/models/conditional.py | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py   | 4 ++--
 src/graph_ensembles/sparse/models/random.py      | 2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 783490b..30e2f0e 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -535,7 +535,7 @@ class DiGraphEnsemble(GraphEnsemble):
         """Sample from the ensemble with weights from the CremB model."""
         s_tot = np.sum(s_out)
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in)) <= 1e-6 * s_tot, msg
         rows = List()
         cols = List()
         vals = List()
@@ -1004,7 +1004,7 @@ class RandomDiGraph(DiGraphEnsemble):
         """Sample from the ensemble with weights from the CremB model."""
         s_tot = np.sum(s_out)
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in)) <= 1e-6 * s_tot, msg
         rows = List()
         cols = List()
         vals = List()
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 0dded4c..b06eedd 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -814,7 +814,7 @@ class DiGraphEnsemble(GraphEnsemble):
         """Sample from the ensemble with weights from the CremB model."""
         s_tot = np.sum(s_out)
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in)) <= 1e-6 * s_tot, msg
         rows = List()
         cols = List()
         vals = List()
@@ -1367,7 +1367,7 @@ class RandomDiGraph(DiGraphEnsemble):
         """Sample from the ensemble with weights from the CremB model."""
         s_tot = np.sum(s_out)
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in)) <= 1e-6 * s_tot, msg
         rows = List()
         cols = List()
         vals = List()
@@ -3087,7 +3087,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         """Sample from the ensemble."""
         s_tot = np.sum(s_out_val)
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in_val) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in_val)) <= 1e-6 * s_tot, msg
 
         rows = List()
         cols = List()
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index f4cf413..7f6b065 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -752,7 +752,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         # Compute total strength
         s_tot = np.sum(s_out)
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in)) <= 1e-6 * s_tot, msg
 
         # Compute aggregate properties
         M = np.max(groups) + 1
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 67b0eab..b738914 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -537,7 +537,7 @@ class DiGraphEnsemble(GraphEnsemble):
         """Sample from the ensemble with weights from the CremB model."""
         s_tot = np.sum(s_out)
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in)) <= 1e-6 * s_tot, msg
         rows = []
         cols = []
         vals = []
@@ -1132,7 +1132,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         """Sample from the ensemble with weights from the CremB model."""
         s_tot = np.sum(s_out[1])
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in[1]) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in[1])) <= 1e-6 * s_tot, msg
 
         rows = List()
         cols = List()
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index e0876d8..2a08662 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -462,7 +462,7 @@ class RandomDiGraph(DiGraphEnsemble):
         """Sample from the ensemble with weights from the CremB model."""
         s_tot = np.sum(s_out)
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in) / s_tot) < 1e-6, msg
+        assert np.abs(s_tot - np.sum(s_in)) <= 1e-6 * s_tot, msg
         rows = []
         cols = []
         vals = []
-- 
2.43.0


From fa49689b97d3226e6f8580c1324ca7ac731fd6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:47 +0000
Subject: [PATCH 27/69] fix: accept sparse arrays as strengths by label in
 spark samples

---
 src/graph_ensembles/spark/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index b06eedd..838a091 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2543,7 +2543,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.num_vertices,
                     self.num_labels,
                 ), msg
-                s_out_l = out_strength_label.tocsc()
+                s_out_l = sp.csc_matrix(out_strength_label)
             else:
                 raise ValueError("Out strength by label must be an array.")
 
@@ -2562,7 +2562,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.num_vertices,
                     self.num_labels,
                 ), msg
-                s_in_l = in_strength_label.tocsc()
+                s_in_l = sp.csc_matrix(in_strength_label)
             else:
                 raise ValueError("In strength by label must be an array.")
 
-- 
2.43.0


From 82031f6782db8334870d46181c52282e755e934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:56 +0000
Subject: [PATCH 28/69] fix: compile the weighted sampling of sparse random
 graphs

---
 src/graph_ensembles/sparse/models/random.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 2a08662..49cadd1 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -466,9 +466,6 @@ class RandomDiGraph(DiGraphEnsemble):
         rows = []
         cols = []
         vals = []
-        rows = []
-        cols = []
-        vals = []
         p = param[0]
         for i in range(num_v):
             for j in range(num_v):
-- 
2.43.0


From 1807277dbc45c3188097f44c1c0bbecad5f01061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 29/69] fix: accept an exact initial solution in the solver
 when no absolute tolerance is set

---
 src/graph_ensembles/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 052aff5..9124acb 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -164,7 +164,7 @@ def monotonic_newton_solver(
     elif (f < 0) & (f_p < 0) & (x <= x_u):
         x_u = x
         f_u = f
-    elif f_p == 0:
+    elif (f_p == 0) or (f == 0):
         pass
     else:
         msg = "The function does not respect the expected monotonicity."
-- 
2.43.0


From 39bd159d54234d2634d07447befe0c3192a68dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 30/69] fix: do not evaluate the function at nan in the solver

---
 src/graph_ensembles/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 9124acb..225585e 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -186,7 +186,7 @@ def monotonic_newton_solver(
 
         # Check that new x exists within the bound (x_u, x_l)
         # otherwise use secant method
-        if (x + dx >= x_u) or (x + dx <= x_l):
+        if not ((x + dx < x_u) and (x + dx > x_l)):
             if f_u is None:
                 x = x_u
             elif f_l is None:
-- 
2.43.0


From fd97ce21b1d75a128d032cb521f2f13efbfea6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:45 +0000
Subject: [PATCH 31/69] fix: keep the secant step of the solver inside the
 bracket

---
 src/graph_ensembles/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 225585e..dee8925 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -200,6 +200,7 @@ def monotonic_newton_solver(
                 x = x_u - 2 * np.abs(x_u)
             else:
                 x = x_u - (f_u * (x_u - x_l)) / (f_u - f_l)
+                x = np.minimum(np.maximum(x, x_l), x_u)
         else:
             x = x + dx
 
-- 
2.43.0


From 99b3c255f0fd6ec3815076a0d70c1c82de837f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:55 +0000
Subject: [PATCH 32/69] fix: forget stored expected values when a model is
 fitted again

---
 src/graph_ensembles/models.py                    | 10 ++++++++++
 src/graph_ensembles/spark/models.py              | 10 ++++++++++
 src/graph_ensembles/sparse/models/conditional.py |  1 +
 src/graph_ensembles/sparse/models/ensembles.py   |  6 ++++++
 src/graph_ensembles/sparse/models/fitness.py     |  3 +++
 src/graph_ensembles/sparse/models/random.py      |  1 +
 6 files changed, 31 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 30e2f0e..a976763 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -112,6 +112,12 @@ class DiGraphEnsemble(GraphEnsemble):
         self.prop_out = empty_index()
         self.prop_in = empty_index()
 
+    def _reset_expected(self):
+        """Forget the stored expected values as they depend on the parameters."""
+        for name in list(vars(self)):
+            if name.startswith(("_exp_", "exp_av_")):
+                delattr(self, name)
+
     def expected_num_edges(self, recompute=False):
         """Compute the expected number of edges."""
         if not hasattr(self, "param"):
@@ -704,6 +710,7 @@ class RandomDiGraph(DiGraphEnsemble):
             q = 0
 
         self.param = np.array([p, q])
+        self._reset_expected()
 
     def expected_num_edges(self, recompute=False):
         """Compute the expected number of edges (per label) given p."""
@@ -1260,6 +1267,7 @@ class FitnessModel(DiGraphEnsemble):
         # Update results and check convergence
         self.param = sol.x
         self.solver_output = sol
+        self._reset_expected()
 
         if not self.solver_output.converged:
             warnings.warn("Fit did not converge", UserWarning)
@@ -2226,6 +2234,8 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         else:
             raise ValueError("The selected method is not valid.")
 
+        self._reset_expected()
+
     def density_fit_fun(self, delta):
         """Return the objective function value and the Jacobian
         for a given value of delta.
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 838a091..c0f925f 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -129,6 +129,12 @@ class DiGraphEnsemble(GraphEnsemble):
         self.prop_out = empty_index()
         self.prop_in = empty_index()
 
+    def _reset_expected(self):
+        """Forget the stored expected values as they depend on the parameters."""
+        for name in list(vars(self)):
+            if name.startswith(("_exp_", "exp_av_")):
+                delattr(self, name)
+
     def expected_num_edges(self, recompute=False):
         """Compute the expected number of edges."""
         if not hasattr(self, "param"):
@@ -1064,6 +1070,7 @@ class RandomDiGraph(DiGraphEnsemble):
             q = 0
 
         self.param = np.array([p, q])
+        self._reset_expected()
 
     def expected_num_edges(self, recompute=False):
         """Compute the expected number of edges (per label) given p."""
@@ -1699,6 +1706,7 @@ class FitnessModel(DiGraphEnsemble):
         # Update results and check convergence
         self.param = sol.x
         self.solver_output = sol
+        self._reset_expected()
 
         if not self.solver_output.converged:
             warnings.warn("Fit did not converge", UserWarning)
@@ -3577,6 +3585,8 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         else:
             raise ValueError("The selected method is not valid.")
 
+        self._reset_expected()
+
     def density_fit_fun(self, delta):
         """Return the objective function value and the Jacobian
         for a given value of delta when there are multiple labels per
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 7f6b065..e755860 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -500,6 +500,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         # Update results and check convergence
         self.param = sol.x
         self.solver_output = sol
+        self._reset_expected()
 
         if not self.solver_output.converged:
             warnings.warn("Fit did not converge", UserWarning)
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index b738914..9e1a6f9 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -106,6 +106,12 @@ class DiGraphEnsemble(GraphEnsemble):
         self.prop_out = empty_index()
         self.prop_in = empty_index()
 
+    def _reset_expected(self):
+        """Forget the stored expected values as they depend on the parameters."""
+        for name in list(vars(self)):
+            if name.startswith(("_exp_", "exp_av_")):
+                delattr(self, name)
+
     def expected_num_edges(self, recompute=False):
         """Compute the expected number of edges."""
         if not hasattr(self, "param"):
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 435dbce..6a217de 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -234,6 +234,7 @@ class FitnessModel(DiGraphEnsemble):
         # Update results and check convergence
         self.param = sol.x
         self.solver_output = sol
+        self._reset_expected()
 
         if not self.solver_output.converged:
             warnings.warn("Fit did not converge", UserWarning)
@@ -708,6 +709,8 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         else:
             raise ValueError("The selected method is not valid.")
 
+        self._reset_expected()
+
     def density_fit_fun(self, delta):
         """Return the objective function value and the Jacobian
         for a given value of delta.
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 49cadd1..2c57f3e 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -162,6 +162,7 @@ class RandomDiGraph(DiGraphEnsemble):
             q = 0
 
         self.param = np.array([p, q])
+        self._reset_expected()
 
     def expected_num_edges(self, recompute=False):
         """Compute the expected number of edges (per label) given p."""
-- 
2.43.0


From 0284ec53aac13003d6eafb66d405f13f342d807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:26 +0000
Subject: [PATCH 33/69] fix: keep fractional parameters when fitting labels
 from integer initial conditions

---
 src/graph_ensembles/models.py                | 2 +-
 src/graph_ensembles/spark/models.py          | 4 ++--
 src/graph_ensembles/sparse/models/fitness.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index a976763..9f68db4 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2175,7 +2175,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Transform properties to csc format to select labels quickly
                 for i in range(self.num_labels):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index c0f925f..36536c3 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3511,7 +3511,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Initialize each layer with solver function
                 d_fit = self.density_fit_layer
@@ -3543,7 +3543,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 )
 
                 # Collect solution to array
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
                 self.solver_output = [None] * self.num_labels
                 tmp = sol_rdd.collect()
                 for i, sol in tmp:
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 6a217de..02693c9 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -635,7 +635,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     )
 
                 self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                self.param = x0.astype(np.float64)
 
                 # Transform properties to csc format to select labels quickly
                 prop_out = sp.csr_array(
-- 
2.43.0


From c40c30b79e5f531c3e9dcb62d39853e8e62c0080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:26 +0000
Subject: [PATCH 34/69] fix: refuse to fit the random model to an impossible
 number of edges or weight

---
 src/graph_ensembles/models.py               | 20 ++++++++++++++------
 src/graph_ensembles/spark/models.py         | 20 ++++++++++++++------
 src/graph_ensembles/sparse/models/random.py | 20 ++++++++++++++------
 3 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 9f68db4..c5eca27 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -697,17 +697,25 @@ class RandomDiGraph(DiGraphEnsemble):
     def fit(self):
         """Fit the parameter to the number of edges and total weight."""
         if self.selfloops:
-            p = self.num_edges / self.num_vertices**2
+            num_pairs = self.num_vertices**2
         else:
-            p = self.num_edges / (self.num_vertices * (self.num_vertices - 1))
+            num_pairs = self.num_vertices * (self.num_vertices - 1)
+
+        if self.num_edges > num_pairs:
+            raise ValueError("More edges than pairs of vertices.")
+        p = self.num_edges / num_pairs if num_pairs > 0 else 0.0
 
+        q = 0
         if hasattr(self, "total_weight"):
+            if (self.num_edges == 0) != (self.total_weight == 0):
+                raise ValueError("Total weight not compatible with number of edges.")
+            ratio = self.num_edges / self.total_weight if self.num_edges > 0 else 1.0
             if self.discrete_weights:
-                q = 1 - self.num_edges / self.total_weight
+                if ratio > 1:
+                    raise ValueError("Discrete weights must be at least one per edge.")
+                q = 1 - ratio
             else:
-                q = self.num_edges / self.total_weight
-        else:
-            q = 0
+                q = ratio
 
         self.param = np.array([p, q])
         self._reset_expected()
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 36536c3..eb3a088 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1057,17 +1057,25 @@ class RandomDiGraph(DiGraphEnsemble):
     def fit(self):
         """Fit the parameter to the number of edges and total weight."""
         if self.selfloops:
-            p = self.num_edges / self.num_vertices**2
+            num_pairs = self.num_vertices**2
         else:
-            p = self.num_edges / (self.num_vertices * (self.num_vertices - 1))
+            num_pairs = self.num_vertices * (self.num_vertices - 1)
+
+        if self.num_edges > num_pairs:
+            raise ValueError("More edges than pairs of vertices.")
+        p = self.num_edges / num_pairs if num_pairs > 0 else 0.0
 
+        q = 0
         if hasattr(self, "total_weight"):
+            if (self.num_edges == 0) != (self.total_weight == 0):
+                raise ValueError("Total weight not compatible with number of edges.")
+            ratio = self.num_edges / self.total_weight if self.num_edges > 0 else 1.0
             if self.discrete_weights:
-                q = 1 - self.num_edges / self.total_weight
+                if ratio > 1:
+                    raise ValueError("Discrete weights must be at least one per edge.")
+                q = 1 - ratio
             else:
-                q = self.num_edges / self.total_weight
-        else:
-            q = 0
+                q = ratio
 
         self.param = np.array([p, q])
         self._reset_expected()
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 2c57f3e..51f1fd0 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -149,17 +149,25 @@ class RandomDiGraph(DiGraphEnsemble):
     def fit(self):
         """Fit the parameter to the number of edges and total weight."""
         if self.selfloops:
-            p = self.num_edges / self.num_vertices**2
+            num_pairs = self.num_vertices**2
         else:
-            p = self.num_edges / (self.num_vertices * (self.num_vertices - 1))
+            num_pairs = self.num_vertices * (self.num_vertices - 1)
+
+        if self.num_edges > num_pairs:
+            raise ValueError("More edges than pairs of vertices.")
+        p = self.num_edges / num_pairs if num_pairs > 0 else 0.0
 
+        q = 0
         if hasattr(self, "total_weight"):
+            if (self.num_edges == 0) != (self.total_weight == 0):
+                raise ValueError("Total weight not compatible with number of edges.")
+            ratio = self.num_edges / self.total_weight if self.num_edges > 0 else 1.0
             if self.discrete_weights:
-                q = 1 - self.num_edges / self.total_weight
+                if ratio > 1:
+                    raise ValueError("Discrete weights must be at least one per edge.")
+                q = 1 - ratio
             else:
-                q = self.num_edges / self.total_weight
-        else:
-            q = 0
+                q = ratio
 
         self.param = np.array([p, q])
         self._reset_expected()
-- 
2.43.0


From 1b04f13ea2a77d0e2ed56bf65fab8705dff03334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:59 +0000
Subject: [PATCH 35/69] fix: weight of self-loops in the expected nn property
 of the random model

---
 src/graph_ensembles/models.py               | 11 ++++++-----
 src/graph_ensembles/spark/models.py         |  7 ++++---
 src/graph_ensembles/sparse/models/random.py | 11 ++++++-----
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index c5eca27..e113149 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -810,15 +810,16 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Neighbourhood direction not recognised.")
 
         # Compute expected property
-        av_nn = np.empty(self.num_vertices, dtype=np.float64)
+        av_nn = np.empty(prop.shape, dtype=np.float64)
         if (ndir == "out") or (ndir == "in"):
-            av_nn[:] = np.sum(self.param[0] * prop)
+            av_nn[:] = np.sum(self.param[0] * prop, axis=0)
             if not self.selfloops:
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
-            if not self.selfloops:
-                av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+            p_und = 2 * self.param[0] - self.param[0] ** 2
+            av_nn[:] = np.sum(p_und * prop, axis=0) - p_und * prop
+            if self.selfloops:
+                av_nn += self.param[0] * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index eb3a088..4ae2f8e 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1179,9 +1179,10 @@ class RandomDiGraph(DiGraphEnsemble):
             if not self.selfloops:
                 av_nn -= self.param[0] * prop
         elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
-            if not self.selfloops:
-                av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+            p_und = 2 * self.param[0] - self.param[0] ** 2
+            av_nn[:] = np.sum(p_und * prop, axis=0) - p_und * prop
+            if self.selfloops:
+                av_nn += self.param[0] * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 51f1fd0..a872447 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -262,15 +262,16 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Neighbourhood direction not recognised.")
 
         # Compute av_nn_prop
-        av_nn = np.empty(self.num_vertices, dtype=np.float64)
+        av_nn = np.empty(prop.shape, dtype=np.float64)
         if (ndir == "out") or (ndir == "in"):
-            av_nn[:] = np.sum(self.param[0] * prop)
+            av_nn[:] = np.sum(self.param[0] * prop, axis=0)
             if not self.selfloops:
                 av_nn += -self.param[0] * prop
         elif ndir == "out-in":
-            av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
-            if not self.selfloops:
-                av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+            p_und = 2 * self.param[0] - self.param[0] ** 2
+            av_nn[:] = np.sum(p_und * prop, axis=0) - p_und * prop
+            if self.selfloops:
+                av_nn += self.param[0] * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
-- 
2.43.0


From 3a30e2c3d00e96748255c2160a8b349ebf8984b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:59 +0000
Subject: [PATCH 36/69] fix: average vector properties over expected neighbours

---
 src/graph_ensembles/models.py                  | 4 ++--
 src/graph_ensembles/spark/models.py            | 6 +++---
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 src/graph_ensembles/sparse/models/random.py    | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index e113149..9bb56f1 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -224,7 +224,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -829,7 +829,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 4ae2f8e..4ef9c81 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -253,7 +253,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -1192,7 +1192,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
@@ -2220,7 +2220,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 9e1a6f9..6165e59 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -218,7 +218,7 @@ class DiGraphEnsemble(GraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index a872447..8d4f7c1 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -281,7 +281,7 @@ class RandomDiGraph(DiGraphEnsemble):
         assert np.all(av_nn[~ind] == 0), msg
 
         # Average results
-        av_nn[ind] = av_nn[ind] / deg[ind]
+        av_nn[ind] = (av_nn[ind].T / deg[ind]).T
 
         # Restore model self-loops properties if they have been modified
         if tmp_self != self.selfloops:
-- 
2.43.0


From 1019a7fbdca2dd0cb1e6c5dead3620489a172389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:59 +0000
Subject: [PATCH 37/69] fix: self-loops in the expected nn property of models
 with one vertex

---
 src/graph_ensembles/models.py                  | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 9bb56f1..7c75777 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -483,7 +483,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         if selfloops:
             for i in range(len(prop_out)):
-                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, j))
+                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, i))
                 if ndir == "out":
                     av_nn[i] += pii * prop[i]
                 elif ndir == "in":
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 6165e59..a7c7014 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -480,7 +480,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         if selfloops:
             for i in range(len(prop_out)):
-                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, j))
+                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, i))
                 if ndir == "out":
                     av_nn[i] += pii * prop[i]
                 elif ndir == "in":
-- 
2.43.0


From 8719921aa18a2232de5854fb32513d326ba03ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:15 +0000
Subject: [PATCH 38/69] fix: small probabilities in the expected nn property in
 both directions

---
 src/graph_ensembles/models.py                  | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 7c75777..8c93a9d 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -475,7 +475,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     av_nn[i] += pji * prop[j]
                     av_nn[j] += pij * prop[i]
                 elif ndir == "out-in":
-                    p = 1 - (1 - pij) * (1 - pji)
+                    p = pij + pji - pij * pji
                     av_nn[i] += p * prop[j]
                     av_nn[j] += p * prop[i]
                 else:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index a7c7014..547a81c 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -472,7 +472,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     av_nn[i] += pji * prop[j]
                     av_nn[j] += pij * prop[i]
                 elif ndir == "out-in":
-                    p = 1 - (1 - pij) * (1 - pji)
+                    p = pij + pji - pij * pji
                     av_nn[i] += p * prop[j]
                     av_nn[j] += p * prop[i]
                 else:
-- 
2.43.0


From 5879ba27fa9bfa14d998e06f0161a303ccb1a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:15 +0000
Subject: [PATCH 39/69] fix: do not change the self-loops option of a model
 when a query is refused

---
 src/graph_ensembles/models.py                 | 11 +++++++++++
 src/graph_ensembles/spark/models.py           | 19 +++++++++++++++++++
 .../sparse/models/ensembles.py                |  8 ++++++++
 src/graph_ensembles/sparse/models/random.py   |  3 +++
 4 files changed, 41 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 8c93a9d..2cc0ac3 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -188,6 +188,9 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -252,6 +255,11 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
@@ -791,6 +799,9 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 4ef9c81..8d1caa1 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -217,6 +217,9 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -281,6 +284,11 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Ensemble has to be fitted before.")
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
@@ -1154,6 +1162,9 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -2170,6 +2181,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -2248,6 +2262,11 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Ensemble has to be fitted before.")
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 547a81c..96aff72 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -182,6 +182,9 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
@@ -246,6 +249,11 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+        if ddir not in ("out", "in", "out-in"):
+            raise ValueError("Degree type not recognised.")
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 8d4f7c1..9427e32 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -243,6 +243,9 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
+        if ndir not in ("out", "in", "out-in"):
+            raise ValueError("Neighbourhood direction not recognised.")
+
         # Set selfloops option
         tmp_self = self.selfloops
         if selfloops is None:
-- 
2.43.0


From 8df9f49c68184c4af4345da9a015ef7f2ad9ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:15 +0000
Subject: [PATCH 40/69] fix: do not reuse the stored expected nn degree for
 another choice of self-loops

---
 src/graph_ensembles/models.py                 | 12 ++++++----
 src/graph_ensembles/spark/models.py           | 24 ++++++++++++-------
 .../sparse/models/ensembles.py                | 12 ++++++----
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 2cc0ac3..824c450 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -263,12 +263,15 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        # The stored result is only valid for the same choice of self-loops
+        flag = name + "_selfloops"
+        if getattr(self, flag, None) != selfloops or recompute or deg_recompute:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -287,6 +290,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, flag, selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 8d1caa1..b3a886d 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -292,12 +292,15 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        # The stored result is only valid for the same choice of self-loops
+        flag = name + "_selfloops"
+        if getattr(self, flag, None) != selfloops or recompute or deg_recompute:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -316,6 +319,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, flag, selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
@@ -2270,12 +2274,15 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        # The stored result is only valid for the same choice of self-loops
+        flag = name + "_selfloops"
+        if getattr(self, flag, None) != selfloops or recompute or deg_recompute:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -2294,6 +2301,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, flag, selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 96aff72..2076ba0 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -257,12 +257,15 @@ class DiGraphEnsemble(GraphEnsemble):
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
 
-        if not hasattr(self, name) or recompute or deg_recompute:
+        if selfloops is None:
+            selfloops = self.selfloops
+
+        # The stored result is only valid for the same choice of self-loops
+        flag = name + "_selfloops"
+        if getattr(self, flag, None) != selfloops or recompute or deg_recompute:
             # Set selfloops option
             tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
+            if selfloops != self.selfloops:
                 deg_recompute = True
                 self.selfloops = selfloops
 
@@ -281,6 +284,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
+            setattr(self, flag, selfloops)
 
             # Restore model self-loops properties if they have been modified
             if tmp_self != self.selfloops:
-- 
2.43.0


From b4a88f0fc290f3497af4367c040aadaf9f93d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:35 +0000
Subject: [PATCH 41/69] fix: expected number of edges of spark labelled models
 after that by label

---
 src/graph_ensembles/spark/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index b3a886d..8eedfbd 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1981,7 +1981,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
-        if not hasattr(self, "_exp_num_edges_label") or recompute:
+        if not hasattr(self, "_exp_num_edges") or recompute:
             # It is necessary to select the elements or pickling will fail
             delta = self.param
             slflp = self.selfloops
-- 
2.43.0


From e21f4234f11c87bd418e1c5d25aa6c2875c21f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 42/69] fix: recompute the expected degrees by label of spark
 models when asked to

---
 src/graph_ensembles/spark/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 8eedfbd..be1a784 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2156,14 +2156,14 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
     def expected_out_degree_by_label(self, recompute=False):
         """Compute the expected out degree."""
         if not hasattr(self, "_exp_out_degree_label") or recompute:
-            _ = self.expected_degree_by_label()
+            _ = self.expected_degree_by_label(recompute=recompute)
 
         return self._exp_out_degree_label
 
     def expected_in_degree_by_label(self, recompute=False):
         """Compute the expected in degree."""
         if not hasattr(self, "_exp_in_degree_label") or recompute:
-            _ = self.expected_degree_by_label()
+            _ = self.expected_degree_by_label(recompute=recompute)
 
         return self._exp_in_degree_label
 
-- 
2.43.0


From d37afaa8e82b50e8871f6507541fc95a7e194296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:20 +0000
Subject: [PATCH 43/69] fix: accept any format of the aggregate adjacency in
 the conditional model

---
 src/graph_ensembles/sparse/models/conditional.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index e755860..76c3dba 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -199,9 +199,11 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 " and the partitioning groups of the graph must be set."
             )
 
-        # If adj is sparse set to dense
-        if not sp.issparse(self.adj):
-            self.adj = sp.csr_array(self.adj)
+        # Store adj by rows and with only the links as elements
+        self.adj = sp.csr_array(self.adj, copy=True)
+        self.adj.sum_duplicates()
+        self.adj.eliminate_zeros()
+        self.groups = np.asarray(self.groups)
 
         # Check that the two are consistent
         self.num_groups = self.adj.shape[0]
@@ -210,6 +212,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         assert isinstance(
             self.groups[0], (int, np.integer)
         ), "groups array must be of integers."
+        assert self.groups.shape == (
+            self.num_vertices,
+        ), "groups array must have one element per vertex."
+        assert np.min(self.groups) >= 0, "groups must be positive."
         assert (
             np.max(self.groups) + 1 == self.num_groups
         ), "Number of groups in adj and groups array does not match."
-- 
2.43.0


From 117e9a46e1891a259e14838118e147e6051c36a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:20 +0000
Subject: [PATCH 44/69] fix: expected degrees of the conditional model given
 each direction of the group links

---
 .../sparse/models/conditional.py              | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 76c3dba..5ce419d 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -608,11 +608,17 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             gr_list = adj_j[n:m]
             for j in range(i + 1):
                 b = groups[j]
-                if b in gr_list:
+                a_to_b = b in gr_list
+                b_to_a = a in adj_j[adj_i[b] : adj_i[b + 1]]
+                if a_to_b or b_to_a:
                     p_out_j = prop_out[j]
                     p_in_j = prop_in[j]
                     if i != j:
+                        z_ab = 1.0
                         if not selfloops and (a == b):
+                            z_ab = 1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b])
+                        pij = 0.0
+                        if a_to_b:
                             pij = p_ij(
                                 param,
                                 p_out_i,
@@ -620,8 +626,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 1.0,
                                 agg_p_out[a],
                                 agg_p_in[b],
-                                1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
+                                z_ab,
                             )
+                        pji = 0.0
+                        if b_to_a:
                             pji = p_ij(
                                 param,
                                 p_out_j,
@@ -629,28 +637,21 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 1.0,
                                 agg_p_out[b],
                                 agg_p_in[a],
-                                1 - agg_diag[a] / (agg_p_out[b] * agg_p_in[a]),
+                                z_ab,
                             )
-                        else:
-                            pij = p_ij(
+                        if a == b:
+                            # Links are not independent given the same group link
+                            p = p_ij(
                                 param,
-                                p_out_i,
-                                p_in_j,
+                                p_out_i * p_in_j + p_out_j * p_in_i,
+                                1.0,
                                 1.0,
                                 agg_p_out[a],
                                 agg_p_in[b],
-                                1.0,
-                            )
-                            pji = p_ij(
-                                param,
-                                p_out_j,
-                                p_in_i,
-                                1.0,
-                                agg_p_out[b],
-                                agg_p_in[a],
-                                1.0,
+                                z_ab,
                             )
-                        p = pij + pji - pij * pji
+                        else:
+                            p = pij + pji - pij * pji
                         exp_d[i] += p
                         exp_d[j] += p
                         exp_d_out[i] += pij
-- 
2.43.0


From d6381fa8cb966ed0ba1020656f34897da4148141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:20 +0000
Subject: [PATCH 45/69] fix: likelihood of the conditional model only depends
 on the pairs of linked groups

---
 .../sparse/models/conditional.py              | 98 +++++++++----------
 1 file changed, 48 insertions(+), 50 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 5ce419d..3bd0e0e 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -9,6 +9,7 @@ from numba import jit
 from math import isinf
 from math import expm1
 from math import exp
+from math import log
 import warnings
 
 
@@ -310,34 +311,21 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         if (agg_adj != (self.adj > 0)).nnz != 0:
             return -np.infty
 
-        # Compute log likelihood of graph
-        like = self._likelihood(
+        # Compute log likelihood of graph given the aggregate graph
+        return self._cond_likelihood(
             self.logp,
             self.log1mp,
             self.param,
             self.prop_out,
             self.prop_in,
-            self.prop_dyad,
+            self.groups,
             adj.indptr,
             adj.indices,
-            self.selfloops,
-        )
-
-        # Compute log likelihood of agg graph
-        agg_like = self._agg_likelihood(
-            self.logp,
-            self.log1mp,
-            self.param,
-            self.prop_out,
-            self.prop_in,
-            self.groups,
             agg_adj.indptr,
             agg_adj.indices,
             self.selfloops,
         )
 
-        return like - agg_like
-
     def sample(
         self,
         ref_g=None,
@@ -1038,7 +1026,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def _agg_likelihood(
+    def _cond_likelihood(
         logp,
         log1mp,
         param,
@@ -1047,51 +1035,61 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         groups,
         adj_i,
         adj_j,
+        agg_i,
+        agg_j,
         selfloops,
     ):
+        """Compute the binary log likelihood of a graph given its aggregate."""
         # Compute aggregate properties
         M = np.max(groups) + 1
         agg_p_out = np.zeros(M, np.float64)
         agg_p_in = np.zeros(M, np.float64)
-        if not selfloops:
-            agg_diag = np.zeros(M, np.float64)
+        agg_diag = np.zeros(M, np.float64)
         for i, gr in enumerate(groups):
             agg_p_out[gr] += prop_out[i]
             agg_p_in[gr] += prop_in[i]
             if not selfloops:
                 agg_diag[gr] += prop_out[i] * prop_in[i]
 
-        like = 0
-        for i, p_out_i in enumerate(agg_p_out):
-            n = adj_i[i]
-            m = adj_i[i + 1]
-            j_list = adj_j[n:m]
-            for j, p_in_j in enumerate(agg_p_in):
-                if not selfloops and (i == j):
-                    # Check if link exists
-                    if j in j_list:
-                        tmp = logp(
-                            param,
-                            p_out_i,
-                            p_in_j,
-                            1 - agg_diag[i] / (agg_p_out[i] * agg_p_in[j]),
-                        )
-                    else:
-                        tmp = log1mp(
-                            param,
-                            p_out_i,
-                            p_in_j,
-                            1 - agg_diag[i] / (agg_p_out[i] * agg_p_in[j]),
-                        )
-                else:
-                    # Check if link exists
-                    if j in j_list:
-                        tmp = logp(param, p_out_i, p_in_j, 1.0)
-                    else:
-                        tmp = log1mp(param, p_out_i, p_in_j, 1.0)
+        # In the limit of zero delta each group link is due to a single link
+        if param[0] == 0 and len(adj_j) != len(agg_j):
+            return -np.infty
 
-                if isinf(tmp):
-                    return tmp
-                like += tmp
+        like = 0.0
+        for i, p_out_i in enumerate(prop_out):
+            a = groups[i]
+            gr_list = agg_j[agg_i[a] : agg_i[a + 1]]
+            j_list = adj_j[adj_i[i] : adj_i[i + 1]]
+            for j, p_in_j in enumerate(prop_in):
+                if (i != j) | selfloops:
+                    # Only the pairs between linked groups are random
+                    if groups[j] in gr_list:
+                        if param[0] == 0:
+                            tmp = 0.0
+                            if j in j_list:
+                                tmp = -np.infty
+                                if p_out_i > 0 and p_in_j > 0:
+                                    tmp = log(p_out_i) + log(p_in_j)
+                        elif j in j_list:
+                            tmp = logp(param, p_out_i, p_in_j, 1.0)
+                        else:
+                            tmp = log1mp(param, p_out_i, p_in_j, 1.0)
+
+                        if isinf(tmp):
+                            return -np.infty
+                        like += tmp
+                elif j in j_list:
+                    return -np.infty
+
+        # Remove the likelihood of the group links
+        for a in range(M):
+            for b in agg_j[agg_i[a] : agg_i[a + 1]]:
+                z_ab = 1.0
+                if not selfloops and (a == b):
+                    z_ab = 1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b])
+                if param[0] == 0:
+                    like -= log(agg_p_out[a]) + log(agg_p_in[b]) + log(z_ab)
+                else:
+                    like -= logp(param, agg_p_out[a], agg_p_in[b], z_ab)
 
         return like
-- 
2.43.0


From 52cf104ccfa581f28e2fe14853f0cfe32082e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:58 +0000
Subject: [PATCH 46/69] fix: sample the conditional model for any parameter
 without cancellation

---
 .../sparse/models/conditional.py              | 180 +++++++++++-------
 1 file changed, 110 insertions(+), 70 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 3bd0e0e..77d2391 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -13,6 +13,20 @@ from math import log
 import warnings
 
 
+@jit(nopython=True)  # pragma: no cover
+def tail_products(i, p_out_i, prop_in, j_list, last, selfloops):
+    """Sum of the products of the properties of i and each element of j_list and
+    all those that come after it, starting from the last value.
+    """
+    tail = np.empty(len(j_list) + 1, np.float64)
+    tail[-1] = last
+    for k in range(len(j_list) - 1, -1, -1):
+        tail[k] = tail[k + 1]
+        if (i != j_list[k]) | selfloops:
+            tail[k] += p_out_i * prop_in[j_list[k]]
+    return tail
+
+
 class ConditionalInvariantModel(ScaleInvariantModel):
     """The Conditional Invariant model is a ScaleInvariantModel that is
     conditioned on the observation of a coarse grained graph. This changes the
@@ -371,6 +385,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         if weights is None:
             rows, cols = self._binary_sample(
                 self.p_ij,
+                self.cond_p_ij,
                 self.param,
                 self.prop_out,
                 self.prop_in,
@@ -387,6 +402,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
                 self.p_ij,
+                self.cond_p_ij,
                 self.param,
                 self.prop_out,
                 self.prop_in,
@@ -404,6 +420,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 in_strength = self.prop_in
             rows, cols, vals = self._wagg_sample(
                 self.p_ij,
+                self.cond_p_ij,
                 self.param,
                 self.prop_out,
                 self.prop_in,
@@ -664,22 +681,14 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def _binary_sample(p_ij, param, prop_out, prop_in, groups, adj_i, adj_j, selfloops):
+    def _binary_sample(
+        p_ij, cond_p_ij, param, prop_out, prop_in, groups, adj_i, adj_j, selfloops
+    ):
         """Sample from the ensemble."""
         rows = []
         cols = []
 
-        # Compute aggregate properties
         M = np.max(groups) + 1
-        agg_p_out = np.zeros(M, np.float64)
-        agg_p_in = np.zeros(M, np.float64)
-        if not selfloops:
-            agg_diag = np.zeros(M, np.float64)
-        for i, gr in enumerate(groups):
-            agg_p_out[gr] += prop_out[i]
-            agg_p_in[gr] += prop_in[i]
-            if not selfloops:
-                agg_diag[gr] += prop_out[i] * prop_in[i]
 
         # Iterate over aggregated adj
         for a in range(M):
@@ -697,32 +706,40 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
-                pnorm = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
-                if not selfloops and (a == b):
-                    pnorm = p_ij(
-                        param,
-                        agg_p_out[a],
-                        agg_p_in[b],
-                        1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
-                    )
 
-                for i in i_in_a:
+                # Sum of the products of all pairs from each i onwards
+                tail_i = np.zeros(len(i_in_a) + 1, np.float64)
+                for k in range(len(i_in_a) - 1, -1, -1):
+                    i = i_in_a[k]
+                    tail_i[k] = tail_products(
+                        i, prop_out[i], prop_in, j_in_b, tail_i[k + 1], selfloops
+                    )[0]
+
+                for k, i in enumerate(i_in_a):
                     p_out_i = prop_out[i]
-                    for j in j_in_b:
+                    tail_j = tail_products(
+                        i, p_out_i, prop_in, j_in_b, tail_i[k + 1], selfloops
+                    )
+                    for h, j in enumerate(j_in_b):
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
-
                             if atleastone:
-                                p_sample = p
+                                p_sample = p_ij(param, p_out_i, prop_in[j], 1.0)
                             else:
-                                p_sample = p / pnorm
+                                # At least one of this and the next is a link
+                                p_sample = cond_p_ij(
+                                    param,
+                                    p_out_i * prop_in[j],
+                                    1.0,
+                                    1.0,
+                                    tail_j[h],
+                                    1.0,
+                                    1.0,
+                                )
 
                             if rng.random() < p_sample:
                                 rows.append(i)
                                 cols.append(j)
                                 atleastone = True
-                            else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
 
         return rows, cols
 
@@ -730,6 +747,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
     @jit(nopython=True)  # pragma: no cover
     def _cremb_sample(
         p_ij,
+        cond_p_ij,
         param,
         prop_out,
         prop_in,
@@ -778,39 +796,62 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
-                p_ab = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
+                z_ab = 1.0
                 if not selfloops and (a == b):
-                    p_ab = p_ij(
-                        param,
-                        agg_p_out[a],
-                        agg_p_in[b],
-                        1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
-                    )
-                pnorm = p_ab
+                    z_ab = 1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b])
 
-                for i in i_in_a:
+                # Sum of the products of all pairs from each i onwards
+                tail_i = np.zeros(len(i_in_a) + 1, np.float64)
+                for k in range(len(i_in_a) - 1, -1, -1):
+                    i = i_in_a[k]
+                    tail_i[k] = tail_products(
+                        i, prop_out[i], prop_in, j_in_b, tail_i[k + 1], selfloops
+                    )[0]
+
+                for k, i in enumerate(i_in_a):
                     p_out_i = prop_out[i]
-                    for j in j_in_b:
+                    tail_j = tail_products(
+                        i, p_out_i, prop_in, j_in_b, tail_i[k + 1], selfloops
+                    )
+                    for h, j in enumerate(j_in_b):
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
-
                             if atleastone:
-                                p_sample = p
+                                p_sample = p_ij(param, p_out_i, prop_in[j], 1.0)
                             else:
-                                p_sample = p / pnorm
+                                # At least one of this and the next is a link
+                                p_sample = cond_p_ij(
+                                    param,
+                                    p_out_i * prop_in[j],
+                                    1.0,
+                                    1.0,
+                                    tail_j[h],
+                                    1.0,
+                                    1.0,
+                                )
 
                             if rng.random() < p_sample:
                                 rows.append(i)
                                 cols.append(j)
                                 vals.append(
                                     rng.exponential(
-                                        s_out[i] * s_in[j] / (s_tot * (p / p_ab))
+                                        s_out[i]
+                                        * s_in[j]
+                                        / (
+                                            s_tot
+                                            * cond_p_ij(
+                                                param,
+                                                p_out_i,
+                                                prop_in[j],
+                                                1.0,
+                                                agg_p_out[a],
+                                                agg_p_in[b],
+                                                z_ab,
+                                            )
+                                        )
                                     )
                                 )
 
                                 atleastone = True
-                            else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
 
         return rows, cols, vals
 
@@ -818,6 +859,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
     @jit(nopython=True)  # pragma: no cover
     def _wagg_sample(
         p_ij,
+        cond_p_ij,
         param,
         prop_out,
         prop_in,
@@ -834,17 +876,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         cols = []
         vals = []
 
-        # Compute aggregate properties
         M = np.max(groups) + 1
-        agg_p_out = np.zeros(M, np.float64)
-        agg_p_in = np.zeros(M, np.float64)
-        if not selfloops:
-            agg_diag = np.zeros(M, np.float64)
-        for i, gr in enumerate(groups):
-            agg_p_out[gr] += prop_out[i]
-            agg_p_in[gr] += prop_in[i]
-            if not selfloops:
-                agg_diag[gr] += prop_out[i] * prop_in[i]
 
         # Iterate over aggregated adj
         for a in range(M):
@@ -865,28 +897,38 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
-                pnorm = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
-                if not selfloops and (a == b):
-                    pnorm = p_ij(
-                        param,
-                        agg_p_out[a],
-                        agg_p_in[b],
-                        1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
-                    )
 
                 # Keep track of new samples to sample the weights
                 s_start = len(rows)
                 snorm = 0
-                for i in i_in_a:
+                # Sum of the products of all pairs from each i onwards
+                tail_i = np.zeros(len(i_in_a) + 1, np.float64)
+                for k in range(len(i_in_a) - 1, -1, -1):
+                    i = i_in_a[k]
+                    tail_i[k] = tail_products(
+                        i, prop_out[i], prop_in, j_in_b, tail_i[k + 1], selfloops
+                    )[0]
+
+                for k, i in enumerate(i_in_a):
                     p_out_i = prop_out[i]
-                    for j in j_in_b:
+                    tail_j = tail_products(
+                        i, p_out_i, prop_in, j_in_b, tail_i[k + 1], selfloops
+                    )
+                    for h, j in enumerate(j_in_b):
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
-
                             if atleastone:
-                                p_sample = p
+                                p_sample = p_ij(param, p_out_i, prop_in[j], 1.0)
                             else:
-                                p_sample = p / pnorm
+                                # At least one of this and the next is a link
+                                p_sample = cond_p_ij(
+                                    param,
+                                    p_out_i * prop_in[j],
+                                    1.0,
+                                    1.0,
+                                    tail_j[h],
+                                    1.0,
+                                    1.0,
+                                )
 
                             if rng.random() < p_sample:
                                 rows.append(i)
@@ -894,8 +936,6 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 snorm += s_out[i] * s_in[j]
                                 vals.append(s_out[i] * s_in[j])
                                 atleastone = True
-                            else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
 
                 # Iterate over the samples of macro link ab
                 for n in range(s_start, len(rows)):
-- 
2.43.0


From 22b243bf48dbe470b1ff8bf4398943442e124b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:07 +0000
Subject: [PATCH 47/69] fix: expected nearest neighbour averages of the
 conditional model

---
 .../sparse/models/conditional.py              | 79 +++++++++++++++++++
 .../sparse/models/ensembles.py                | 24 +++---
 2 files changed, 93 insertions(+), 10 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 77d2391..3461114 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -290,6 +290,21 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
         return self._exp_in_degree
 
+    def _exp_nn_prop(self, prop, ndir):
+        """Computes the expected sum of the property over the neighbours."""
+        return self.cond_exp_av_nn_prop(
+            self.cond_p_ij,
+            self.param,
+            self.prop_out,
+            self.prop_in,
+            self.groups,
+            self.adj.indptr,
+            self.adj.indices,
+            prop,
+            ndir,
+            self.selfloops,
+        )
+
     def log_likelihood(self, g):
         """Compute the likelihood a graph given the fitted model.
         Accepts as input either a graph or an adjacency matrix.
@@ -679,6 +694,70 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
         return exp_d, exp_d_out, exp_d_in
 
+    @staticmethod
+    @jit(nopython=True)  # pragma: no cover
+    def cond_exp_av_nn_prop(
+        p_ij, param, prop_out, prop_in, groups, adj_i, adj_j, prop, ndir, selfloops
+    ):
+        """Compute the expected sum of the property over the neighbours
+        conditional on the given aggregated network.
+        """
+        M = np.max(groups) + 1
+        agg_p_out = np.zeros(M, np.float64)
+        agg_p_in = np.zeros(M, np.float64)
+        agg_diag = np.zeros(M, np.float64)
+        for i, gr in enumerate(groups):
+            agg_p_out[gr] += prop_out[i]
+            agg_p_in[gr] += prop_in[i]
+            if not selfloops:
+                agg_diag[gr] += prop_out[i] * prop_in[i]
+
+        av_nn = np.zeros(prop.shape, dtype=np.float64)
+        for i, p_out_i in enumerate(prop_out):
+            p_in_i = prop_in[i]
+            a = groups[i]
+            for j, p_out_j in enumerate(prop_out):
+                if (i == j) and not selfloops:
+                    continue
+
+                p_in_j = prop_in[j]
+                b = groups[j]
+                z_ab = 1.0
+                if not selfloops and a == b:
+                    z_ab = 1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b])
+
+                pij = 0.0
+                if b in adj_j[adj_i[a] : adj_i[a + 1]]:
+                    pij = p_ij(
+                        param, p_out_i, p_in_j, 1.0, agg_p_out[a], agg_p_in[b], z_ab
+                    )
+                pji = 0.0
+                if a in adj_j[adj_i[b] : adj_i[b + 1]]:
+                    pji = p_ij(
+                        param, p_out_j, p_in_i, 1.0, agg_p_out[b], agg_p_in[a], z_ab
+                    )
+
+                if ndir == "out" or i == j:
+                    p = pij
+                elif ndir == "in":
+                    p = pji
+                elif a == b and (pij > 0 or pji > 0):
+                    p = p_ij(
+                        param,
+                        p_out_i * p_in_j + p_out_j * p_in_i,
+                        1.0,
+                        1.0,
+                        agg_p_out[a],
+                        agg_p_in[b],
+                        z_ab,
+                    )
+                else:
+                    p = pij + pji - pij * pji
+
+                av_nn[i] += p * prop[j]
+
+        return av_nn
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def _binary_sample(
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 2076ba0..2b83fba 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -204,16 +204,7 @@ class DiGraphEnsemble(GraphEnsemble):
             raise ValueError("Neighbourhood direction not recognised.")
 
         # Compute expected property
-        av_nn = self.exp_av_nn_prop(
-            self.p_ij,
-            self.param,
-            self.prop_out,
-            self.prop_in,
-            self.prop_dyad,
-            prop,
-            ndir,
-            self.selfloops,
-        )
+        av_nn = self._exp_nn_prop(prop, ndir)
 
         # Test that mask is the same
         ind = deg != 0
@@ -235,6 +226,19 @@ class DiGraphEnsemble(GraphEnsemble):
 
         return av_nn
 
+    def _exp_nn_prop(self, prop, ndir):
+        """Computes the expected sum of the property over the neighbours."""
+        return self.exp_av_nn_prop(
+            self.p_ij,
+            self.param,
+            self.prop_out,
+            self.prop_in,
+            self.prop_dyad,
+            prop,
+            ndir,
+            self.selfloops,
+        )
+
     def expected_av_nn_degree(
         self,
         ddir="out",
-- 
2.43.0


From a620e841f99f680fa3ffdbb5390986f048856a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:50 +0000
Subject: [PATCH 48/69] fix: automatic thresholds of the spark confusion
 matrices

---
 src/graph_ensembles/spark/models.py | 51 ++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index be1a784..e83488b 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -388,6 +388,17 @@ class DiGraphEnsemble(GraphEnsemble):
 
         return like
 
+    def _prob_range(self):
+        """Smallest and largest non-zero link probability."""
+        prop_out, prop_in = self.prop_out, self.prop_in
+        if isinstance(prop_out, np.ndarray):
+            prop_out = prop_out[prop_out != 0]
+        if isinstance(prop_in, np.ndarray):
+            prop_in = prop_in[prop_in != 0]
+        p_max = self.p_ij(self.param, prop_out.max(), prop_in.max(), None)
+        p_min = self.p_ij(self.param, prop_out.min(), prop_in.min(), None)
+        return p_min, p_max
+
     def confusion_matrix(self, g, thresholds=None, selfloops=None):
         """Compute the true/false positive/negative rates for the model
         at the given probability thresholds levels.
@@ -400,14 +411,10 @@ class DiGraphEnsemble(GraphEnsemble):
 
         # If thresholds are not given or is an int compute automatically
         if thresholds is None:
-            p_max = self.p_ij(self.param, self.prop_out.max(), self.prop_in.max(), None)
-            p_min = self.p_ij(self.param, self.prop_out.min(), self.prop_in.min(), None)
-            thresholds = np.logspace(log(p_min), log(p_max), 20)
+            thresholds = np.geomspace(*self._prob_range(), 20)
 
         elif isinstance(thresholds, int):
-            p_max = self.p_ij(self.param, self.prop_out.max(), self.prop_in.max(), None)
-            p_min = self.p_ij(self.param, self.prop_out.min(), self.prop_in.min(), None)
-            thresholds = np.logspace(log(p_min), log(p_max), thresholds)
+            thresholds = np.geomspace(*self._prob_range(), thresholds)
 
         elif not isinstance(thresholds, np.ndarray):
             raise ValueError("Thresholds must be an array or an integer.")
@@ -2435,6 +2442,22 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         return like
 
+    def _prob_range(self):
+        """Smallest and largest non-zero link probability in a layer."""
+        p = []
+        for k in range(self.num_labels):
+            prop_out = self.prop_out[:, [k]].data
+            prop_in = self.prop_in[:, [k]].data
+            prop_out = prop_out[prop_out != 0]
+            prop_in = prop_in[prop_in != 0]
+            if len(prop_out) > 0 and len(prop_in) > 0 and self.param[k] > 0:
+                for i, j in (
+                    (prop_out.min(), prop_in.min()),
+                    (prop_out.max(), prop_in.max()),
+                ):
+                    p.append(self.p_ijk(self.param[k], i, j, None))
+        return min(p), max(p)
+
     def confusion_matrix(self, g, thresholds=None, selfloops=None):
         """Compute the likelihood a graph given the fitted model.
         Accepts as input either a graph or an adjacency matrix.
@@ -2447,22 +2470,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         # If thresholds are not given or is an int compute automatically
         if thresholds is None:
-            p_max = -expm1(-self.param[0] * self.prop_out.max() * self.prop_in.max())
-            p_min = -expm1(
-                -self.param[0]
-                * self.prop_out[self.prop_out != 0].min()
-                * self.prop_in[self.prop_in != 0].min()
-            )
-            thresholds = np.logspace(log(p_min), log(p_max), 20)
+            thresholds = np.geomspace(*self._prob_range(), 20)
 
         elif isinstance(thresholds, int):
-            p_max = -expm1(-self.param[0] * self.prop_out.max() * self.prop_in.max())
-            p_min = -expm1(
-                -self.param[0]
-                * self.prop_out[self.prop_out != 0].min()
-                * self.prop_in[self.prop_in != 0].min()
-            )
-            thresholds = np.logspace(log(p_min), log(p_max), thresholds)
+            thresholds = np.geomspace(*self._prob_range(), thresholds)
 
         elif not isinstance(thresholds, np.ndarray):
             raise ValueError("Thresholds must be an array or an integer.")
-- 
2.43.0


From 1ff7b00c09c8246690247b7e7dfca2c0c27fdae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 49/69] fix: keep fractional transition probabilities in
 pagerank

---
 src/graph_ensembles/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index cb10f89..6a72d32 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -7,7 +7,7 @@ from numba import jit
 
 @jit(nopython=True)  # pragma: no cover
 def normalise_rows(rows, clms, weights):
-    new_w = np.zeros(len(weights), dtype=weights.dtype)
+    new_w = np.zeros(len(weights), dtype=np.float64)
     for i in range(len(rows) - 1):
         n = rows[i]
         m = rows[i + 1]
-- 
2.43.0


From 371fe47f5b3d0ed527963b96f64d8e04b2e2b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 50/69] fix: trophic depth of graphs with sparse arrays as
 adjacency

---
 src/graph_ensembles/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index 6a72d32..0a40dd5 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -101,7 +101,7 @@ def trophic_depth(g, final, max_iter=100, tol=1e-3):
     w = adj.data
 
     # Initialise result
-    strength = adj.sum(axis=1).A1 + final
+    strength = np.asarray(adj.sum(axis=1)).ravel() + final
     idx = strength != 0
     depth = final
 
-- 
2.43.0


From ee9f3832a984d68d40d75f808a403cb951538d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 51/69] fix: accept dense graphs in pagerank and trophic depth

---
 src/graph_ensembles/lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index 0a40dd5..2bfe3ff 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -2,6 +2,7 @@
     GraphEnsemble classes or on its attributes.
 """
 import numpy as np
+import scipy.sparse as sp
 from numba import jit
 
 
@@ -57,6 +58,8 @@ def pagerank(g, alpha=0.85, max_iter=100, tol=1e-6, weighted=True):
     else:
         adj = g.adjacency_matrix(directed=True, weighted=False)
 
+    adj = sp.csr_array(adj)
+
     # Extract data from csr matrix
     i = adj.indptr
     j = adj.indices
@@ -93,7 +96,7 @@ def trophic_depth(g, final, max_iter=100, tol=1e-3):
     the size of the connection to the final node (which has depth zero).
     """
     # Get adj in csc for fast propagation
-    adj = g.adjacency_matrix(directed=True, weighted=True).tocsc()
+    adj = sp.csc_array(g.adjacency_matrix(directed=True, weighted=True))
 
     # Extract data from csc matrix
     i = adj.indices
-- 
2.43.0


From f0131bcf36770cbff906fcd3f20eb0f1e931e45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:25 +0000
Subject: [PATCH 52/69] fix: store fitnesses as floats so that integer products
 do not overflow

---
 src/graph_ensembles/models.py                    |  8 ++++++++
 src/graph_ensembles/spark/models.py              | 11 ++++++++---
 src/graph_ensembles/sparse/models/conditional.py |  4 ++++
 src/graph_ensembles/sparse/models/fitness.py     | 11 ++++++++---
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 824c450..fc5cd77 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1183,6 +1183,10 @@ class FitnessModel(DiGraphEnsemble):
         msg = "Node in properties must contain positive values only."
         assert np.all(self.prop_in >= 0), msg
 
+        # Integer types could overflow in the products of fitnesses
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # Ensure that number of edges is a positive number
         if hasattr(self, "num_edges"):
             try:
@@ -2046,6 +2050,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if sp.issparse(self.prop_in):
             self.prop_in = self.prop_in.toarray()
 
+        # Integer types could overflow in the products of fitnesses
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # Ensure that all fitness are positive
         if np.any(self.prop_out < 0):
             raise ValueError("Node out properties must contain positive values only.")
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index e83488b..3aebf57 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1564,6 +1564,10 @@ class FitnessModel(DiGraphEnsemble):
         msg = "Node in properties must contain positive values only."
         assert np.all(self.prop_in >= 0), msg
 
+        # Integer types could overflow in the products of fitnesses
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # Ensure that number of edges is a positive number
         if hasattr(self, "num_edges"):
             try:
@@ -3329,9 +3333,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         assert isinstance(self.prop_in, np.ndarray) or sp.issparse(self.prop_in), msg
         assert self.prop_in.shape == (self.num_vertices, self.num_labels), msg
 
-        # Convert to csr matrices
-        self.prop_out = sp.csr_matrix(self.prop_out)
-        self.prop_in = sp.csr_matrix(self.prop_in)
+        # Convert to csr matrices, integer types could overflow in the
+        # products of fitnesses
+        self.prop_out = sp.csr_matrix(self.prop_out).astype(np.float64)
+        self.prop_in = sp.csr_matrix(self.prop_in).astype(np.float64)
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 3461114..5250edb 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -168,6 +168,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         msg = "Node in properties must contain positive values only."
         assert np.all(self.prop_in >= 0), msg
 
+        # Integer types could overflow in the products of fitnesses
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # Ensure that number of edges is a positive number
         if hasattr(self, "num_edges"):
             try:
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 02693c9..0b3dbc0 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -126,6 +126,10 @@ class FitnessModel(DiGraphEnsemble):
         msg = "Node in properties must contain positive values only."
         assert np.all(self.prop_in >= 0), msg
 
+        # Integer types could overflow in the products of fitnesses
+        self.prop_out = self.prop_out.astype(np.float64)
+        self.prop_in = self.prop_in.astype(np.float64)
+
         # Ensure that number of edges is a positive number
         if hasattr(self, "num_edges"):
             try:
@@ -470,9 +474,10 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         assert isinstance(self.prop_in, np.ndarray) or sp.issparse(self.prop_in), msg
         assert self.prop_in.shape == (self.num_vertices, self.num_labels), msg
 
-        # Convert to csr matrices
-        self.prop_out = sp.csr_array(self.prop_out)
-        self.prop_in = sp.csr_array(self.prop_in)
+        # Convert to csr matrices, integer types could overflow in the
+        # products of fitnesses
+        self.prop_out = sp.csr_array(self.prop_out).astype(np.float64)
+        self.prop_in = sp.csr_array(self.prop_in).astype(np.float64)
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
-- 
2.43.0


From 90b9170d5a8eb32304e9fa0387866c699ca05edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:25 +0000
Subject: [PATCH 53/69] fix: accept sparse fitnesses by label with unsorted or
 repeated indices

---
 src/graph_ensembles/spark/models.py          | 2 ++
 src/graph_ensembles/sparse/models/fitness.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 3aebf57..217e7ab 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3337,6 +3337,8 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # products of fitnesses
         self.prop_out = sp.csr_matrix(self.prop_out).astype(np.float64)
         self.prop_in = sp.csr_matrix(self.prop_in).astype(np.float64)
+        self.prop_out.sum_duplicates()
+        self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 0b3dbc0..57306fc 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -478,6 +478,8 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         # products of fitnesses
         self.prop_out = sp.csr_array(self.prop_out).astype(np.float64)
         self.prop_in = sp.csr_array(self.prop_in).astype(np.float64)
+        self.prop_out.sum_duplicates()
+        self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
-- 
2.43.0


From 3f6b95c48b0eccc9d8119fdbcff1697589d85fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:25 +0000
Subject: [PATCH 54/69] fix: store targets by label as floats so that unsigned
 values do not wrap

---
 src/graph_ensembles/models.py                | 2 ++
 src/graph_ensembles/spark/models.py          | 2 ++
 src/graph_ensembles/sparse/models/fitness.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index fc5cd77..c610410 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2094,6 +2094,8 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             if not np.issubdtype(self.num_edges_label.dtype, np.number):
                 raise ValueError("Number of edges per label must be numeric.")
 
+            self.num_edges_label = self.num_edges_label.astype(np.float64)
+
             if np.any(self.num_edges_label < 0):
                 raise ValueError("Number of edges per label must be positive.")
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 217e7ab..eccabfa 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3380,6 +3380,8 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             if not np.issubdtype(self.num_edges_label.dtype, np.number):
                 raise ValueError("Number of edges per label must be numeric.")
 
+            self.num_edges_label = self.num_edges_label.astype(np.float64)
+
             if np.any(self.num_edges_label < 0):
                 raise ValueError("Number of edges per label must be positive.")
 
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 57306fc..cf34678 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -529,6 +529,8 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
             if not np.issubdtype(self.num_edges_label.dtype, np.number):
                 raise ValueError("Number of edges per label must be numeric.")
 
+            self.num_edges_label = self.num_edges_label.astype(np.float64)
+
             if np.any(self.num_edges_label < 0):
                 raise ValueError("Number of edges per label must be positive.")
 
-- 
2.43.0


From a54054a14ecf19f0e6804b2aa6f66281d82023f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:32 +0000
Subject: [PATCH 55/69] fix: projected measures of sparse multigraphs without
 edges

---
 src/graph_ensembles/sparse/graphs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 970e5eb..dc1b26f 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -961,7 +961,10 @@ class MultiGraph(Graph):
     def adjacency_matrix(self, directed=False, weighted=False):
         """Return the adjacency matrix of the graph."""
         # Project tensor to two dimensions
-        adj = self.adj[0]
+        if self.num_labels == 0:
+            adj = sp.csr_array((self.num_vertices, self.num_vertices), dtype=bool)
+        else:
+            adj = self.adj[0]
         for lbl in range(1, self.num_labels):
             adj += self.adj[lbl]
 
@@ -1234,7 +1237,10 @@ class MultiDiGraph(MultiGraph, DiGraph):
     def adjacency_matrix(self, directed=True, weighted=False):
         """Return the adjacency matrix of the graph."""
         # Project tensor to two dimensions
-        adj = self.adj[0]
+        if self.num_labels == 0:
+            adj = sp.csr_array((self.num_vertices, self.num_vertices), dtype=bool)
+        else:
+            adj = self.adj[0]
         for lbl in range(1, self.num_labels):
             adj += self.adj[lbl]
 
-- 
2.43.0


From c9101d6fa43ea93acc7586622e4097356e1e054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:32 +0000
Subject: [PATCH 56/69] fix: average boolean and small integer properties over
 neighbours in dense graphs

---
 src/graph_ensembles/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index c6a1bc3..057ddd6 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -395,7 +395,7 @@ class Graph:
             np.fill_diagonal(adj, 0)
 
         # Compute sum
-        res = adj.dot(prop)
+        res = adj.dot(prop.astype(np.float64))
 
         return res.astype(np.float64)
 
-- 
2.43.0


From 3558f4ff61856504d0b4f9e2da8b8566db3fe644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:18 +0000
Subject: [PATCH 57/69] fix: refuse strengths of the wrong size in weighted
 samples

---
 src/graph_ensembles/models.py                    | 8 ++++++++
 src/graph_ensembles/spark/models.py              | 8 ++++++++
 src/graph_ensembles/sparse/models/conditional.py | 8 ++++++++
 src/graph_ensembles/sparse/models/ensembles.py   | 4 ++++
 src/graph_ensembles/sparse/models/random.py      | 4 ++++
 5 files changed, 32 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index c610410..763699a 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -406,6 +406,10 @@ class DiGraphEnsemble(GraphEnsemble):
                 out_strength = self.prop_out
             if in_strength is None:
                 in_strength = self.prop_in
+            if not np.shape(out_strength) == np.shape(in_strength) == (
+                self.num_vertices,
+            ):
+                raise ValueError("Strengths must have one value per vertex.")
             rows, cols, vals = self._cremb_sample(
                 self.p_ij,
                 self.param,
@@ -968,6 +972,10 @@ class RandomDiGraph(DiGraphEnsemble):
                 out_strength = self.prop_out
             if in_strength is None:
                 in_strength = self.prop_in
+            if not np.shape(out_strength) == np.shape(in_strength) == (
+                self.num_vertices,
+            ):
+                raise ValueError("Strengths must have one value per vertex.")
             rows, cols, vals = self._cremb_sample(
                 self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index eccabfa..bec06e9 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -531,6 +531,10 @@ class DiGraphEnsemble(GraphEnsemble):
                 out_strength = self.prop_out
             if in_strength is None:
                 in_strength = self.prop_in
+            if not np.shape(out_strength) == np.shape(in_strength) == (
+                self.num_vertices,
+            ):
+                raise ValueError("Strengths must have one value per vertex.")
             e_fun = self._cremb_sample
             tmp = self.p_iter_rdd.map(
                 lambda x: e_fun(
@@ -1334,6 +1338,10 @@ class RandomDiGraph(DiGraphEnsemble):
                 out_strength = self.prop_out
             if in_strength is None:
                 in_strength = self.prop_in
+            if not np.shape(out_strength) == np.shape(in_strength) == (
+                self.num_vertices,
+            ):
+                raise ValueError("Strengths must have one value per vertex.")
             rows, cols, vals = self._cremb_sample(
                 self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 5250edb..9a5626d 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -419,6 +419,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 out_strength = self.prop_out
             if in_strength is None:
                 in_strength = self.prop_in
+            if not np.shape(out_strength) == np.shape(in_strength) == (
+                self.num_vertices,
+            ):
+                raise ValueError("Strengths must have one value per vertex.")
             rows, cols, vals = self._cremb_sample(
                 self.p_ij,
                 self.cond_p_ij,
@@ -437,6 +441,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 out_strength = self.prop_out
             if in_strength is None:
                 in_strength = self.prop_in
+            if not np.shape(out_strength) == np.shape(in_strength) == (
+                self.num_vertices,
+            ):
+                raise ValueError("Strengths must have one value per vertex.")
             rows, cols, vals = self._wagg_sample(
                 self.p_ij,
                 self.cond_p_ij,
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 2b83fba..1a42e35 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -404,6 +404,10 @@ class DiGraphEnsemble(GraphEnsemble):
                 out_strength = self.prop_out
             if in_strength is None:
                 in_strength = self.prop_in
+            if not np.shape(out_strength) == np.shape(in_strength) == (
+                self.num_vertices,
+            ):
+                raise ValueError("Strengths must have one value per vertex.")
             rows, cols, vals = self._cremb_sample(
                 self.p_ij,
                 self.param,
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 9427e32..a656f2c 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -404,6 +404,10 @@ class RandomDiGraph(DiGraphEnsemble):
                 out_strength = self.prop_out
             if in_strength is None:
                 in_strength = self.prop_in
+            if not np.shape(out_strength) == np.shape(in_strength) == (
+                self.num_vertices,
+            ):
+                raise ValueError("Strengths must have one value per vertex.")
             rows, cols, vals = self._cremb_sample(
                 self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
-- 
2.43.0


From a7667370ec768a272d043fa556d0b1c9cbe3c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:18 +0000
Subject: [PATCH 58/69] fix: accept a list of arrays in the likelihood of dense
 labelled models

---
 src/graph_ensembles/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 763699a..4c93fa0 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1610,8 +1610,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 tensor = False
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
-        elif isinstance(g, list) and sp.issparse(g[0]):
-            adj = np.array([x.toarray() for x in g])
+        elif isinstance(g, list):
+            adj = np.array([x.toarray() if sp.issparse(x) else x for x in g])
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
-- 
2.43.0


From 396498b38caeb71fa58f071862873bf2e1e0d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:18 +0000
Subject: [PATCH 59/69] fix: do not overflow narrow integer weights of merged
 links

---
 src/graph_ensembles/graphs.py        | 13 +++++++++++--
 src/graph_ensembles/sparse/graphs.py | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 057ddd6..a75d1d6 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -174,7 +174,7 @@ class Graph:
         # Construct adjacency matrix
         if weight is not None:
             self.weighted = True
-            val_array = e[weight].values
+            val_array = self.wide_values(e[weight].values)
 
             # Ensure all weights are positive
             msg = "Zero or negative edge weights are not supported."
@@ -355,6 +355,15 @@ class Graph:
         """Determine the number of bytes needed for storing ids for num_items."""
         return int(max(2 ** np.ceil(np.log2(np.log2(num_items + 1) / 8)), 1))
 
+    @staticmethod
+    def wide_values(values):
+        """Widen integer weights so that their sums do not overflow."""
+        if values.dtype.kind in "bi":
+            return values.astype(np.int64)
+        if values.dtype.kind == "u":
+            return values.astype(np.uint64)
+        return values
+
     @staticmethod
     def generate_id_dict(df, id_col, check_unique=False):
         """Return id dictionary for given dataframe columns."""
@@ -855,7 +864,7 @@ class MultiGraph(Graph):
 
         # Construct adjacency tensor with dimensions (label, src, dst)
         if weight is not None:
-            val_array = e[weight].values
+            val_array = self.wide_values(e[weight].values)
             self.adj = np.zeros(
                 (self.num_labels, self.num_vertices, self.num_vertices),
                 dtype=val_array.dtype,
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index dc1b26f..65f021b 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -174,7 +174,7 @@ class Graph:
         # Construct adjacency matrix
         if weight is not None:
             self.weighted = True
-            val_array = e[weight].values
+            val_array = self.wide_values(e[weight].values)
 
             # Ensure all weights are positive
             msg = "Zero or negative edge weights are not supported."
@@ -381,6 +381,15 @@ class Graph:
         """Determine the number of bytes needed for storing ids for num_items."""
         return int(max(2 ** np.ceil(np.log2(np.log2(num_items + 1) / 8)), 1))
 
+    @staticmethod
+    def wide_values(values):
+        """Widen integer weights so that their sums do not overflow."""
+        if values.dtype.kind in "bi":
+            return values.astype(np.int64)
+        if values.dtype.kind == "u":
+            return values.astype(np.uint64)
+        return values
+
     @staticmethod
     def generate_id_dict(df, id_col, check_unique=False):
         """Return id dictionary for given dataframe columns."""
@@ -930,7 +939,7 @@ class MultiGraph(Graph):
 
         # Construct adjacency tensor with dimensions (label, src, dst)
         if weight is not None:
-            val_array = e[weight].values
+            val_array = self.wide_values(e[weight].values)
 
             # Define adjacency tensor as list of sparse matrices
             self.adj = []
-- 
2.43.0


From 68a68aa9a5d5797ffab980b7573fce39e7f3d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:36 +0000
Subject: [PATCH 60/69] fix: accept categorical vertex ids

---
 src/graph_ensembles/graphs.py        | 2 +-
 src/graph_ensembles/sparse/graphs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index a75d1d6..08e591b 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -123,7 +123,7 @@ class Graph:
             self.id_dict = self.generate_id_dict(v, "_node", check_unique=True)
 
             # Create index with new id value and sort
-            v = v.set_index(v["_node"].map(lambda x: self.id_dict.get(x)).values)
+            v = v.set_index(np.array([self.id_dict.get(x) for x in v["_node"]]))
             v = v.sort_index()
 
         except ValueError as err:
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 65f021b..7178e11 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -123,7 +123,7 @@ class Graph:
             self.id_dict = self.generate_id_dict(v, "_node", check_unique=True)
 
             # Create index with new id value and sort
-            v = v.set_index(v["_node"].map(lambda x: self.id_dict.get(x)).values)
+            v = v.set_index(np.array([self.id_dict.get(x) for x in v["_node"]]))
             v = v.sort_index()
 
         except ValueError as err:
-- 
2.43.0


From 1d02e0abaacf50474242d74872a524b55eb8b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:36 +0000
Subject: [PATCH 61/69] fix: accept dates as vertex ids, labels and groups

---
 src/graph_ensembles/graphs.py        | 4 ++++
 src/graph_ensembles/sparse/graphs.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 08e591b..9b5b266 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -375,6 +375,10 @@ class Graph:
         else:
             ids = np.unique(df[id_col])
 
+        # The elements of a column of dates are not those of the array
+        if ids.dtype.kind in "mM":
+            ids = pd.Series(ids)
+
         for i, x in enumerate(ids):
             id_dict[x] = i
 
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 7178e11..cd08dec 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -401,6 +401,10 @@ class Graph:
         else:
             ids = np.unique(df[id_col])
 
+        # The elements of a column of dates are not those of the array
+        if ids.dtype.kind in "mM":
+            ids = pd.Series(ids)
+
         for i, x in enumerate(ids):
             id_dict[x] = i
 
-- 
2.43.0


From a46f939cafb30fd518cbb022b993318e669c0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:46 +0000
Subject: [PATCH 62/69] fix: links of unweighted samples of dense labelled
 models are not weights

---
 src/graph_ensembles/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 4c93fa0..20a148e 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1775,7 +1775,8 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             raise ValueError("Weights method not recognised or implemented.")
 
         # Convert to adjacency matrix
-        g.adj = np.zeros((g.num_labels, g.num_vertices, g.num_vertices))
+        dtype = bool if weights is None else np.float64
+        g.adj = np.zeros((g.num_labels, g.num_vertices, g.num_vertices), dtype=dtype)
         g.adj[lbls, rows, cols] = vals
 
         return g
-- 
2.43.0


From efbe695def1f8aa70c9d88723cf5e47617c65af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:46 +0000
Subject: [PATCH 63/69] fix: sampled graphs know whether they are weighted

---
 src/graph_ensembles/models.py                    | 3 +++
 src/graph_ensembles/spark/models.py              | 3 +++
 src/graph_ensembles/sparse/models/conditional.py | 1 +
 src/graph_ensembles/sparse/models/ensembles.py   | 2 ++
 src/graph_ensembles/sparse/models/random.py      | 1 +
 5 files changed, 10 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 20a148e..d02ae43 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -374,6 +374,7 @@ class DiGraphEnsemble(GraphEnsemble):
         g.num_vertices = self.num_vertices
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
+        g.weighted = weights is not None
 
         # Check if reference graph is available
         if ref_g is not None:
@@ -933,6 +934,7 @@ class RandomDiGraph(DiGraphEnsemble):
         g.num_vertices = self.num_vertices
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
+        g.weighted = weights is not None
 
         # Check if reference graph is available
         if ref_g is not None:
@@ -1687,6 +1689,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         g.num_vertices = self.num_vertices
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
+        g.weighted = weights is not None
         g.num_labels = self.num_labels
         num_bytes = g.get_num_bytes(g.num_labels)
         g.label_dtype = np.dtype("u" + str(num_bytes))
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index bec06e9..90e9867 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -496,6 +496,7 @@ class DiGraphEnsemble(GraphEnsemble):
         g.num_vertices = self.num_vertices
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
+        g.weighted = weights is not None
 
         # Check if reference graph is available
         if ref_g is not None:
@@ -1303,6 +1304,7 @@ class RandomDiGraph(DiGraphEnsemble):
         g.num_vertices = self.num_vertices
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
+        g.weighted = weights is not None
 
         # Check if reference graph is available
         if ref_g is not None:
@@ -2571,6 +2573,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         g.num_vertices = self.num_vertices
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
+        g.weighted = weights is not None
         g.num_labels = self.num_labels
         num_bytes = g.get_num_bytes(g.num_labels)
         g.label_dtype = np.dtype("u" + str(num_bytes))
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 9a5626d..a05ddd1 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -385,6 +385,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         g.num_vertices = self.num_vertices
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
+        g.weighted = weights is not None
 
         # Check if reference graph is available
         if ref_g is not None:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 1a42e35..6d363d0 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -373,6 +373,7 @@ class DiGraphEnsemble(GraphEnsemble):
         g.num_vertices = self.num_vertices
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
+        g.weighted = weights is not None
 
         # Check if reference graph is available
         if ref_g is not None:
@@ -864,6 +865,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         g.num_vertices = self.num_vertices
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
+        g.weighted = weights is not None
         g.num_labels = self.num_labels
         num_bytes = g.get_num_bytes(g.num_labels)
         g.label_dtype = np.dtype("u" + str(num_bytes))
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index a656f2c..ae8a235 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -369,6 +369,7 @@ class RandomDiGraph(DiGraphEnsemble):
         g.num_vertices = self.num_vertices
         num_bytes = g.get_num_bytes(g.num_vertices)
         g.id_dtype = np.dtype("u" + str(num_bytes))
+        g.weighted = weights is not None
 
         # Check if reference graph is available
         if ref_g is not None:
-- 
2.43.0


From ad7d3f32c3da7629d0a44b69e3ce228d33e9a163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:53 +0000
Subject: [PATCH 64/69] fix: measures of graphs sampled from spark models are
 arrays

---
 src/graph_ensembles/spark/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 90e9867..85cc0a3 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -557,7 +557,7 @@ class DiGraphEnsemble(GraphEnsemble):
             raise ValueError("Weights method not recognised or implemented.")
 
         # Convert to adjacency matrix
-        g.adj = sp.csr_matrix(
+        g.adj = sp.csr_array(
             (vals, (rows, cols)), shape=(g.num_vertices, g.num_vertices)
         )
 
@@ -1351,7 +1351,7 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError("Weights method not recognised or implemented.")
 
         # Convert to adjacency matrix
-        g.adj = sp.csr_matrix(
+        g.adj = sp.csr_array(
             (vals, (rows, cols)), shape=(g.num_vertices, g.num_vertices)
         )
 
@@ -2661,7 +2661,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
             for i, (rows, cols) in tmp.collect():
                 # Convert to adjacency matrix
-                g.adj[i] = sp.csr_matrix(
+                g.adj[i] = sp.csr_array(
                     (np.ones(len(rows), dtype=bool), (rows, cols)),
                     shape=(g.num_vertices, g.num_vertices),
                 )
@@ -2692,7 +2692,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
             for i, (rows, cols, vals) in tmp.collect():
                 # Convert to adjacency matrix
-                g.adj[i] = sp.csr_matrix(
+                g.adj[i] = sp.csr_array(
                     (vals, (rows, cols)), shape=(g.num_vertices, g.num_vertices)
                 )
 
-- 
2.43.0


From f87852bab81e34e136c0d6bf084e9b91db55e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:20 +0000
Subject: [PATCH 65/69] fix: refuse link probabilities larger than one in the
 random model

---
 src/graph_ensembles/models.py               | 3 +++
 src/graph_ensembles/spark/models.py         | 3 +++
 src/graph_ensembles/sparse/models/random.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index d02ae43..fdb610c 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -683,6 +683,9 @@ class RandomDiGraph(DiGraphEnsemble):
             if np.any(self.param < 0):
                 raise ValueError("Parameters must be positive.")
 
+            if self.param[0] > 1:
+                raise ValueError("Link probability cannot be larger than one.")
+
             self.param = self.param.astype(np.float64)
 
         if not (hasattr(self, "num_edges") or hasattr(self, "param")):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 85cc0a3..25872a3 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -987,6 +987,9 @@ class RandomDiGraph(DiGraphEnsemble):
             if np.any(self.param < 0):
                 raise ValueError("Parameters must be positive.")
 
+            if self.param[0] > 1:
+                raise ValueError("Link probability cannot be larger than one.")
+
             self.param = self.param.astype(np.float64)
 
         if not (hasattr(self, "num_edges") or hasattr(self, "param")):
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index ae8a235..129eab7 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -118,6 +118,9 @@ class RandomDiGraph(DiGraphEnsemble):
             if np.any(self.param < 0):
                 raise ValueError("Parameters must be positive.")
 
+            if self.param[0] > 1:
+                raise ValueError("Link probability cannot be larger than one.")
+
             self.param = self.param.astype(np.float64)
 
         if not (hasattr(self, "num_edges") or hasattr(self, "param")):
-- 
2.43.0


From 1b1e1704c3c914ef2382d05aca80d578cab85307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:28 +0000
Subject: [PATCH 66/69] fix: refuse vertices without group and edges without
 label instead of using the first one

---
 src/graph_ensembles/graphs.py        | 9 ++++-----
 src/graph_ensembles/sparse/graphs.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 9b5b266..1736acc 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -143,11 +143,9 @@ class Graph:
             self.num_groups = len(self.group_dict)
             num_bytes = self.get_num_bytes(self.num_groups)
             self.group_dtype = np.dtype("u" + str(num_bytes))
-            self.groups = (
-                v["_group"]
-                .map(lambda x: self.group_dict.get(x))
-                .values.astype(self.group_dtype)
-            )
+            groups = v["_group"].map(lambda x: self.group_dict.get(x))
+            assert not groups.isna().any(), "Some vertices have no group."
+            self.groups = groups.values.astype(self.group_dtype)
 
         # Check that no vertex id in e is not present in v
         # and generate optimized edge list
@@ -862,6 +860,7 @@ class MultiGraph(Graph):
 
         # Convert labels to construct adjacency matrix by layer
         e["_label"] = e["_label"].map(lambda x: self.label_dict.get(x))
+        assert not e["_label"].isna().any(), "Some edges have no label."
         lbl_array = e["_label"].values.astype(self.label_dtype)
         src_array = e["_src"].values.astype(self.id_dtype)
         dst_array = e["_dst"].values.astype(self.id_dtype)
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index cd08dec..d8d40ed 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -143,11 +143,9 @@ class Graph:
             self.num_groups = len(self.group_dict)
             num_bytes = self.get_num_bytes(self.num_groups)
             self.group_dtype = np.dtype("u" + str(num_bytes))
-            self.groups = (
-                v["_group"]
-                .map(lambda x: self.group_dict.get(x))
-                .values.astype(self.group_dtype)
-            )
+            groups = v["_group"].map(lambda x: self.group_dict.get(x))
+            assert not groups.isna().any(), "Some vertices have no group."
+            self.groups = groups.values.astype(self.group_dtype)
 
         # Check that no vertex id in e is not present in v
         # and generate optimized edge list
@@ -937,6 +935,7 @@ class MultiGraph(Graph):
 
         # Convert labels to construct adjacency matrix by layer
         e["_label"] = e["_label"].map(lambda x: self.label_dict.get(x))
+        assert not e["_label"].isna().any(), "Some edges have no label."
         lbl_array = e["_label"].values.astype(self.label_dtype)
         src_array = e["_src"].values.astype(self.id_dtype)
         dst_array = e["_dst"].values.astype(self.id_dtype)
-- 
2.43.0


From 92df63fc8d56f7efbc9c8286d579c263a26817cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:34 +0000
Subject: [PATCH 67/69] fix: sum repeated entries of sparse strengths by label
 in weighted samples

---
 src/graph_ensembles/spark/models.py            | 4 ++--
 src/graph_ensembles/sparse/models/ensembles.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 25872a3..ae43802 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2616,7 +2616,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.num_vertices,
                     self.num_labels,
                 ), msg
-                s_out_l = sp.csc_matrix(out_strength_label)
+                s_out_l = sp.csc_matrix(out_strength_label.tocoo())
             else:
                 raise ValueError("Out strength by label must be an array.")
 
@@ -2635,7 +2635,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.num_vertices,
                     self.num_labels,
                 ), msg
-                s_in_l = sp.csc_matrix(in_strength_label)
+                s_in_l = sp.csc_matrix(in_strength_label.tocoo())
             else:
                 raise ValueError("In strength by label must be an array.")
 
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 6d363d0..1ff7ba5 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -919,7 +919,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.num_vertices,
                     self.num_labels,
                 ), msg
-                tmp = out_strength_label.tocsc()
+                tmp = out_strength_label.tocoo().tocsc()
                 s_out_l = self.csx_to_tuple_list(tmp.indptr, tmp.indices, tmp.data)
             else:
                 raise ValueError("Out strength by label must be an array.")
@@ -939,7 +939,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.num_vertices,
                     self.num_labels,
                 ), msg
-                tmp = in_strength_label.tocsc()
+                tmp = in_strength_label.tocoo().tocsc()
                 s_in_l = self.csx_to_tuple_list(tmp.indptr, tmp.indices, tmp.data)
             else:
                 raise ValueError("In strength by label must be an array.")
-- 
2.43.0


From ebb5d73607b0966fb45663f04837db04f141a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:26 +0000
Subject: [PATCH 68/69] fix: accept the weight column in a list of one in
 labelled graphs

---
 src/graph_ensembles/graphs.py        | 2 ++
 src/graph_ensembles/sparse/graphs.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 1736acc..8858d14 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -846,6 +846,8 @@ class MultiGraph(Graph):
         # If column names are passed as lists with one elements extract str
         if isinstance(edge_label, list) and len(edge_label) == 1:
             edge_label = edge_label[0]
+        if isinstance(weight, list) and len(weight) == 1:
+            weight = weight[0]
 
         # Get dictionary of label to numeric internal label
         if isinstance(edge_label, list):
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index d8d40ed..abf819c 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -921,6 +921,8 @@ class MultiGraph(Graph):
         # If column names are passed as lists with one elements extract str
         if isinstance(edge_label, list) and len(edge_label) == 1:
             edge_label = edge_label[0]
+        if isinstance(weight, list) and len(weight) == 1:
+            weight = weight[0]
 
         # Get dictionary of label to numeric internal label
         if isinstance(edge_label, list):
-- 
2.43.0


From d589af50b84ca821e1661d5f35fe5477b88dcd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:26 +0000
Subject: [PATCH 69/69] fix: average neighbour property of dense graphs for
 properties of more than two dimensions

---
 src/graph_ensembles/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 8858d14..ddc86b2 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -406,7 +406,7 @@ class Graph:
             np.fill_diagonal(adj, 0)
 
         # Compute sum
-        res = adj.dot(prop.astype(np.float64))
+        res = np.tensordot(adj, prop.astype(np.float64), axes=1)
 
         return res.astype(np.float64)
 
-- 
2.43.0

