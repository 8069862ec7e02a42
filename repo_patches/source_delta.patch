From bac019c7b5d9beff73ff67699fd1a5b893bb516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 01/32] fix: DiGraph.reverse_direction must drop the cached
 quantities of the old direction

---
 dhg/structure/graphs/directed_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 645f652..683f635 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -298,6 +298,7 @@ class DiGraph(BaseGraph):
         r"""Reverse the direction of edges in directed graph.
         """
         self._raw_e_dict = {(dst, src): w for (src, dst), w in self._raw_e_dict.items()}
+        self._clear_cache()
 
     def drop_edges(self, drop_rate: float, ord: str = "uniform"):
         r"""Randomly drop edges from the directed graph. This function will return a new directed graph with non-dropped edges.
-- 
2.43.0


From 0166d5590f90e550c68f0a1793e0f0f8a178977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 02/32] fix: Graph.v2v(aggr='softmax_then_sum') must take the
 softmax of the adjacency rows

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 82fb6e4..1efceac 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -677,7 +677,7 @@ class Graph(BaseGraph):
             elif aggr == "sum":
                 X = torch.sparse.mm(P, X)
             elif aggr == "softmax_then_sum":
-                P = torch.sparse.mm(P, dim=1)
+                P = torch.sparse.softmax(P, dim=1)
                 X = torch.sparse.mm(P, X)
             else:
                 pass
-- 
2.43.0


From 0e881a33be6bade739140ffaefc0a9fbe11ee097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 03/32] fix: mean aggregation with custom weights must divide
 by the total weight

---
 dhg/structure/graphs/bipartite_graph.py | 4 ++--
 dhg/structure/graphs/directed_graph.py  | 4 ++--
 dhg/structure/graphs/graph.py           | 2 +-
 dhg/structure/hypergraphs/hypergraph.py | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 7c81f53..0a742ed 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -681,7 +681,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -734,7 +734,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_u_neg_1[torch.isinf(D_u_neg_1)] = 0
                 X = D_u_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 683f635..d710c41 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -585,7 +585,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
@@ -627,7 +627,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 1efceac..ae818cf 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -692,7 +692,7 @@ class Graph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 2390ede..7bd2667 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -1283,7 +1283,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1347,7 +1347,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1482,7 +1482,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -1546,7 +1546,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** (-1)
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
-- 
2.43.0


From 1e99fb6e0d77b82ce67f0919d96ded9c72872295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 04/32] fix: Hypergraph.add/remove_hyperedges must not modify
 the caller's hyperedge list

---
 dhg/structure/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 80b853d..1b43fbf 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -493,10 +493,9 @@ class BaseHypergraph:
         """
         if len(e_list) > 0 and type(e_list[0]) in (int, float):
             return [tuple(sorted(e_list))]
-        elif type(e_list) == tuple:
+        elif type(e_list) in (tuple, list):
+            # copy the list, the caller's object must not be modified
             e_list = list(e_list)
-        elif type(e_list) == list:
-            pass
         else:
             raise TypeError("e_list must be List[int] or List[List[int]].")
         for _idx in range(len(e_list)):
-- 
2.43.0


From 10e0d3e2fa5ef79727f428d815037b8f57186436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 05/32] fix: copies of a Hypergraph (clone, state dict,
 save/load, drop_hyperedges) must keep the vertex weights

---
 dhg/structure/hypergraphs/hypergraph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 7bd2667..caaa561 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -56,7 +56,7 @@ class Hypergraph(BaseHypergraph):
     def state_dict(self) -> Dict[str, Any]:
         r"""Get the state dict of the hypergraph.
         """
-        return {"num_v": self.num_v, "raw_groups": self._raw_groups}
+        return {"num_v": self.num_v, "raw_groups": self._raw_groups, "v_weight": self._v_weight}
 
     def save(self, file_path: Union[str, Path]):
         r"""Save the DHG's hypergraph structure a file.
@@ -149,6 +149,7 @@ class Hypergraph(BaseHypergraph):
         r"""Return a copy of the hypergraph.
         """
         hg = Hypergraph(self.num_v, device=self.device)
+        hg._v_weight = deepcopy(self._v_weight)
         hg._raw_groups = deepcopy(self._raw_groups)
         hg.cache = deepcopy(self.cache)
         hg.group_cache = deepcopy(self.group_cache)
@@ -173,6 +174,8 @@ class Hypergraph(BaseHypergraph):
         """
         _hg = Hypergraph(state_dict["num_v"])
         _hg._raw_groups = deepcopy(state_dict["raw_groups"])
+        if state_dict.get("v_weight") is not None:
+            _hg._v_weight = deepcopy(state_dict["v_weight"])
         return _hg
 
     @staticmethod
@@ -462,6 +465,7 @@ class Hypergraph(BaseHypergraph):
             state_dict = {
                 "num_v": self.num_v,
                 "raw_groups": _raw_groups,
+                "v_weight": self._v_weight,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
             _hg = _hg.to(self.device)
@@ -489,6 +493,7 @@ class Hypergraph(BaseHypergraph):
             state_dict = {
                 "num_v": self.num_v,
                 "raw_groups": _raw_groups,
+                "v_weight": self._v_weight,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
             _hg = _hg.to(self.device)
-- 
2.43.0


From aab2a4cfb3c9d4be890cfd7498ac806a84ae583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 06/32] fix: Hypergraph.subgraph must merge the weights of
 hyperedges that become equal

---
 dhg/structure/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 1b43fbf..db1d48d 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -762,6 +762,8 @@ class BaseHypergraph:
                 )
                 if filtered is not None:
                     new_code, new_content = filtered
+                    if new_code in raw_groups[group_name]:
+                        new_content = self._merge_hyperedges(raw_groups[group_name][new_code], new_content)
                     raw_groups[group_name][new_code] = new_content
 
         sub_hg = type(self).from_state_dict({"num_v": len(v_list), "raw_groups": raw_groups})
-- 
2.43.0


From c65cf793a3c19e7f2c2980e2d71f3d6c5981817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 07/32] fix: Hypergraph.clear must keep the vertex weights,
 later queries need them

---
 dhg/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index db1d48d..3b51822 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -377,6 +377,7 @@ class BaseHypergraph:
     ):
         assert isinstance(num_v, int) and num_v > 0, "num_v should be a positive integer"
         self.clear()
+        self._v_weight = None
         self._num_v = num_v
         self.device = device
 
@@ -427,7 +428,6 @@ class BaseHypergraph:
         self._clear_cache()
 
     def _clear_raw(self):
-        self._v_weight = None
         self._raw_groups = {}
 
     def _clear_cache(self, group_name: Optional[str] = None):
-- 
2.43.0


From f49f31a7e1706aca0519965fcd1353651fd4cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 08/32] fix: Graph.from_hypergraph_clique must honour its miu
 parameter

---
 dhg/structure/graphs/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index ae818cf..9c6bcdf 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -243,7 +243,6 @@ class Graph(BaseGraph):
             ``device`` (``torch.device``): The device to store the graph. Defaults to ``torch.device("cpu")``.
         """
         num_v = hypergraph.num_v
-        miu = 1.0
         adj = miu * hypergraph.H.mm(hypergraph.H_T).coalesce().cpu().clone()
         src_idx, dst_idx = adj._indices()
         edge_mask = src_idx < dst_idx
-- 
2.43.0


From a965581665ae0e41f9aea3d602cd78e5e838c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 09/32] fix: fast G(n,p) generators must accept probability
 zero and one

---
 dhg/random/graphs/directed_graph.py | 4 ++++
 dhg/random/graphs/graph.py          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index 1861253..cb17ba7 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -43,7 +43,11 @@ def digraph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
+    if prob == 1:
+        return digraph_Gnp(num_v, prob)
     lp = math.log(1.0 - prob)
+    if lp == 0:
+        return DiGraph(num_v)
     e_list = []
     # w -> v
     v, w = 1, -1
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index 5977b52..4b9b1e0 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -45,7 +45,11 @@ def graph_Gnp_fast(num_v: int, prob: float):
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
     e_list = []
+    if prob == 1:
+        return graph_Gnp(num_v, prob)
     lp = math.log(1.0 - prob)
+    if lp == 0:
+        return Graph(num_v)
     v, w = 1, -1
     while v < num_v:
         lr = math.log(1.0 - random.random())
-- 
2.43.0


From 43388e64a4742fc2f7fddbaec4ff50f70e666cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 10/32] fix: graph_Gnm and digraph_Gnm must accept the complete
 graph

---
 dhg/random/graphs/directed_graph.py | 2 +-
 dhg/random/graphs/graph.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index cb17ba7..54966d6 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -88,7 +88,7 @@ def digraph_Gnm(num_v: int, num_e: int):
     """
 
     assert num_v > 1, "num_v must be greater than 1"
-    assert num_e < num_v * (
+    assert num_e <= num_v * (
         num_v - 1
     ), "the specified num_e is larger than the possible number of edges"
 
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index 4b9b1e0..8f2257f 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -78,7 +78,7 @@ def graph_Gnm(num_v: int, num_e: int):
     """
     assert num_v > 1, "num_v must be greater than 1"
     assert (
-        num_e < num_v * (num_v - 1) // 2
+        num_e <= num_v * (num_v - 1) // 2
     ), "the specified num_e is larger than the possible number of edges"
 
     v_list = list(range(num_v))
-- 
2.43.0


From 1c355fa35907b752868ba8c26e5dca7001a15918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 11/32] fix: remap_adj_list(s) must number vertices that only
 occur on a line of their own

---
 dhg/utils/structure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dhg/utils/structure.py b/dhg/utils/structure.py
index 207d4e5..bb250ad 100644
--- a/dhg/utils/structure.py
+++ b/dhg/utils/structure.py
@@ -157,7 +157,7 @@ def remap_adj_list(
     if bipartite_graph:
         u_set, v_set = set(), set()
         for line in adj_list:
-            if len(line) <= 1:
+            if len(line) == 0:
                 continue
             u_set.add(line[0])
             for v in line[1:]:
@@ -177,7 +177,7 @@ def remap_adj_list(
     else:
         v_set = set()
         for line in adj_list:
-            if len(line) <= 1:
+            if len(line) == 0:
                 continue
             for v in line:
                 v_set.add(v)
@@ -210,7 +210,7 @@ def remap_adj_lists(
         u_set, v_set = set(), set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
+                if len(line) == 0:
                     continue
                 u_set.add(line[0])
                 for v in line[1:]:
@@ -232,7 +232,7 @@ def remap_adj_lists(
         v_set = set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
+                if len(line) == 0:
                     continue
                 for v in line:
                     v_set.add(v)
-- 
2.43.0


From 7d6dab49b3027be8951bca97af1a930f132c9682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 12/32] fix: split_by_num/split_by_ratio must not lose the
 vertices of non-contiguous labels

---
 dhg/utils/dataset_split.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dhg/utils/dataset_split.py b/dhg/utils/dataset_split.py
index 9309661..760b9bb 100644
--- a/dhg/utils/dataset_split.py
+++ b/dhg/utils/dataset_split.py
@@ -57,7 +57,7 @@ def split_by_num(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
+    classes = np.unique(v_label)
 
     train_idx, test_idx = [], []
     val_num = val_num if val_num is not None else 0
@@ -66,7 +66,7 @@ def split_by_num(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in classes:
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         random.shuffle(lbl_v_idx)
         train_idx.extend(lbl_v_idx[:train_num])
@@ -118,7 +118,7 @@ def split_by_ratio(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
+    classes = np.unique(v_label)
 
     val_ratio = val_ratio if val_ratio is not None else 0
     if test_ratio is not None:
@@ -132,7 +132,7 @@ def split_by_ratio(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in classes:
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         _num = lbl_v_idx.shape[0]
         random.shuffle(lbl_v_idx)
-- 
2.43.0


From e34a07cbd4740d0237b71da547e7aa82e6edbfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 13/32] fix: recommender metrics must accept a ratio (numpy was
 not imported)

---
 dhg/metrics/recommender.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 6264a82..7ba826c 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -1,6 +1,7 @@
 from typing import Optional, Union, Tuple, List, Dict
 
 import torch
+import numpy as np
 
 
 from .base import BaseEvaluator
-- 
2.43.0


From eb45c970039e4d7f29d0d223a8b28f259c5bb63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 14/32] fix: retrieval.rr/mrr must be zero, not nan, where
 nothing relevant is in the top k

---
 dhg/metrics/retrieval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 5efc906..d64748a 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -292,6 +292,8 @@ def rr(y_true: torch.Tensor, y_pred: torch.Tensor, k: Optional[int] = None, rati
 
     pred_seq = y_true[torch.argsort(y_pred, dim=-1, descending=True)][:k]
     pred_index = torch.nonzero(pred_seq).view(-1)
+    if len(pred_index) == 0:
+        return 0.0
     res = (1 / (pred_index + 1)).mean().cpu()
     return res.mean().item()
 
-- 
2.43.0


From 8ebdef01636d2b0d1d3e7901945e23d2adad4cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 15/32] fix: retrieval.ap/map must honour k and ratio, and be
 zero where nothing relevant is in the top k

---
 dhg/metrics/retrieval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index d64748a..98cadc8 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -149,8 +149,10 @@ def ap(
     else:
         k = min(k, max_k) if k is not None else max_k
 
-    pred_seq = y_true[torch.argsort(y_pred, descending=True)]
-    pred_index = torch.arange(1, len(y_true) + 1, device=y_true.device)[pred_seq > 0]
+    pred_seq = y_true[torch.argsort(y_pred, descending=True)][:k]
+    pred_index = torch.arange(1, len(pred_seq) + 1, device=y_true.device)[pred_seq > 0]
+    if len(pred_index) == 0:
+        return 0.0
     recall_seq = torch.arange(1, len(pred_index) + 1, device=y_true.device)
     res = recall_seq / pred_index
     if method == "pascal_voc":
-- 
2.43.0


From f0bc47d275313eb65aa2ecca9166fba5cab744fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 16/32] fix: retrieval.pr_curve must honour k and ratio, and
 accept rows without a relevant item

---
 dhg/metrics/retrieval.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 98cadc8..6903b83 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -374,8 +374,11 @@ def _pr_curve(
     else:
         k = min(k, max_k) if k is not None else max_k
 
-    pred_seq = y_true[torch.argsort(y_pred, descending=True)]
-    pred_index = torch.arange(1, len(y_true) + 1, device=y_true.device)[pred_seq > 0]
+    pred_seq = y_true[torch.argsort(y_pred, descending=True)][:k]
+    pred_index = torch.arange(1, len(pred_seq) + 1, device=y_true.device)[pred_seq > 0]
+    recall_coor = np.linspace(0, 1, n_points)
+    if len(pred_index) == 0:
+        return [0.0] * n_points, recall_coor.tolist()
     recall_seq = torch.arange(1, len(pred_index) + 1, device=y_true.device)
     res = recall_seq / pred_index
     if method == "pascal_voc":
@@ -383,8 +386,10 @@ def _pr_curve(
         res = torch.cummax(res, dim=0)[0]
         res = torch.flip(res, dims=(0,))
     res = res.cpu().numpy()
-    recall_coor = np.linspace(0, 1, n_points)
-    recall_index = (recall_coor * (torch.sum(y_true).item() - 1)).astype(int)
+    num_true = int(torch.sum(y_true).item())
+    # a recall that is not reached within the top k has precision zero
+    res = np.concatenate([res, np.zeros(num_true - len(res), dtype=res.dtype)])
+    recall_index = (recall_coor * (num_true - 1)).astype(int)
     precision_coor = res[recall_index]
     return precision_coor.tolist(), recall_coor.tolist()
 
-- 
2.43.0


From de708618dbe6797349c009bed2d82e2ba6d12112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 17/32] fix: BaseEvaluator.test_epoch_res must not alter the
 results of earlier epochs

---
 dhg/metrics/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/metrics/base.py b/dhg/metrics/base.py
index 5dbdfa6..64cc2d5 100644
--- a/dhg/metrics/base.py
+++ b/dhg/metrics/base.py
@@ -153,6 +153,7 @@ class BaseEvaluator:
         if self.test_res_dict == {} and self.last_test_res is not None:
             return self.last_test_res
         assert self.test_res_dict != {}, "No batch data added for testing."
+        self.last_test_res = {}
         for name, res_list in self.test_res_dict.items():
             if not isinstance(res_list[0], list):
                 self.last_test_res[name] = np.vstack(res_list).mean(0).squeeze().tolist()
-- 
2.43.0


From 18de88aceb3cd242be12674752c65d460365654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 18/32] fix: UniGINConv must weight the vertex itself, not its
 hyperedges, by (1 + eps)

---
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index cc67be8..db05697 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -272,7 +272,7 @@ class UniGINConv(nn.Module):
         """
         X = self.theta(X)
         Y = hg.v2e(X, aggr="mean")
-        X = (1 + self.eps) * hg.e2v(Y, aggr="sum") + X
+        X = (1 + self.eps) * X + hg.e2v(Y, aggr="sum")
         if not self.is_last:
             X = self.act(X)
             if self.bn is not None:
-- 
2.43.0


From e20be60e2541204725a4044d2617633fabbd57b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 19/32] fix: GATConv and UniGATConv must accept a structure
 with a single connection

---
 dhg/nn/convs/graphs/gat_conv.py         | 2 +-
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/nn/convs/graphs/gat_conv.py b/dhg/nn/convs/graphs/gat_conv.py
index 91996f6..74d1274 100644
--- a/dhg/nn/convs/graphs/gat_conv.py
+++ b/dhg/nn/convs/graphs/gat_conv.py
@@ -48,7 +48,7 @@ class GATConv(nn.Module):
         x_for_src = self.atten_src(X)
         x_for_dst = self.atten_dst(X)
         e_atten_score = x_for_src[g.e_src] + x_for_dst[g.e_dst]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index db05697..a01388f 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -136,7 +136,7 @@ class UniGATConv(nn.Module):
         # ===============================================
         alpha_e = self.atten_e(Y)
         e_atten_score = alpha_e[hg.e2v_src]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
-- 
2.43.0


From d1f55fec8cf4a3dbe4ad9671c1835246f384751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 20/32] fix: from_hypergraph_hypergcn must accept hyperedges
 that yield no edge

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 9c6bcdf..77111a5 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -293,7 +293,7 @@ class Graph(BaseGraph):
                         new_e_weight.append(w)
         # remove selfloop
         if remove_selfloop:
-            new_e_list = torch.tensor(new_e_list, dtype=torch.long)
+            new_e_list = torch.tensor(new_e_list, dtype=torch.long).view(-1, 2)
             new_e_weight = torch.tensor(new_e_weight, dtype=torch.float)
             e_mask = (new_e_list[:, 0] != new_e_list[:, 1]).bool()
             new_e_list = new_e_list[e_mask].numpy().tolist()
-- 
2.43.0


From 1471f34d89f4da10a62166d135aa047ec9497f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 21/32] fix: download_and_check must accept files outside of
 the cache root

---
 dhg/utils/download.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index b7c0f6c..2caf008 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -68,7 +68,10 @@ def _try_migrate_from_legacy_cache(file_path: Path, md5: str) -> bool:
     from dhg._global import CACHE_ROOT
     LEGACY_CACHE_ROOT = Path.home() / ".dhg"
 
-    legacy_path = LEGACY_CACHE_ROOT / file_path.relative_to(CACHE_ROOT)
+    try:
+        legacy_path = LEGACY_CACHE_ROOT / file_path.relative_to(CACHE_ROOT)
+    except ValueError: # A file outside of the cache has no legacy location.
+        return False
     if legacy_path is None or not legacy_path.exists(): return False
     file_path.parent.mkdir(parents=True, exist_ok=True)
     shutil.move(legacy_path, file_path)
-- 
2.43.0


From 277039d3cd0fe2736d3ba7341ed4b8c5db25a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 22/32] fix: BaseTask.experiment must keep the best model when
 the direction is 'minimize'

---
 dhg/experiments/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 211286f..5995e95 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -106,10 +106,9 @@ class BaseTask:
                 raise optuna.exceptions.TrialPruned()
             if scheduler is not None:
                 scheduler.step()
-            if self.direction == "maximize":
-                if val_res > best_score:
-                    best_score = val_res
-                    best_model = deepcopy(model)
+            if val_res > best_score if self.direction == "maximize" else val_res < best_score:
+                best_score = val_res
+                best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
         self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
-- 
2.43.0


From 9c07ce2744ddef58edec30c7d2b88f0e6a46c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 23/32] fix: force_layout must return a finite position for a
 single vertex

---
 dhg/visualization/structure/layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/layout.py b/dhg/visualization/structure/layout.py
index c1c4600..c8a0203 100644
--- a/dhg/visualization/structure/layout.py
+++ b/dhg/visualization/structure/layout.py
@@ -28,7 +28,9 @@ def force_layout(
         centers=centers,
     )
     v_coor = sim.simulate(v_coor, edge_list_to_incidence_matrix(num_v, e_list))
-    v_coor = (v_coor - v_coor.min(0)) / (v_coor.max(0) - v_coor.min(0)) * 0.8 + 0.1
+    v_span = v_coor.max(0) - v_coor.min(0)
+    v_span[v_span == 0] = 1
+    v_coor = (v_coor - v_coor.min(0)) / v_span * 0.8 + 0.1
     return v_coor
 
 
-- 
2.43.0


From fcafe50be11df0c373ffdd0ac75e3e239015bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 24/32] fix: drawing must reject colour lists of a wrong length

---
 dhg/visualization/structure/defaults.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/visualization/structure/defaults.py b/dhg/visualization/structure/defaults.py
index 05ccf97..7239c59 100644
--- a/dhg/visualization/structure/defaults.py
+++ b/dhg/visualization/structure/defaults.py
@@ -196,6 +196,7 @@ def fill_color(custom_color: Optional[Union[str, list]], default_color: Any, len
         return [default_color] * length
     elif isinstance(custom_color, list):
         if isinstance(custom_color[0], str) or isinstance(custom_color[0], tuple) or isinstance(custom_color[0], list):
+            assert len(custom_color) == length, "The specified color list has the wrong length."
             return custom_color
         else:
             return [custom_color] * length
-- 
2.43.0


From c9faee58db54e1b9997b906a4ac32005f8add13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 25/32] fix: drawing must reject label lists of a wrong length
 instead of dropping vertices

---
 dhg/visualization/structure/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index ac0af3b..536e8be 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -133,6 +133,7 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
+    assert len(v_label) == n, "The specified label list has the wrong length."
     for coor, label, size, width in zip(v_coor.tolist(), v_label, v_size, v_line_width):
         circle = Circle(coor, size)
         circle.lineWidth = width
-- 
2.43.0


From 5074d75fef3740f33f1165645cd336c2a4a2bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:40 +0000
Subject: [PATCH 26/32] fix: BaseTask must accept a recommender task without
 structure

---
 dhg/experiments/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 5995e95..617e3ad 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -111,7 +111,8 @@ class BaseTask:
                 best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
-        self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
+        if self.data.get("structure", None) is not None:
+            self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
         return best_score
 
     def _remove_cached_data(self):
@@ -139,9 +140,12 @@ class BaseTask:
         self._remove_cached_data()
         self.best_model = self.model_builder(self.study.best_trial)
         self.best_model.load_state_dict(torch.load(f"{self.cache_root}/{self.study.best_trial.number}_model.pth"))
-        self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
+        self.best_structure = None
+        if self.data.get("structure", None) is not None:
+            self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
         self.best_model = self.best_model.to(self.device)
-        self.best_structure = self.best_structure.to(self.device)
+        if self.best_structure is not None:
+            self.best_structure = self.best_structure.to(self.device)
 
         self.logger.info("Best trial:")
         self.best_trial = self.study.best_trial
-- 
2.43.0


From 49f4c406a571877048ad07bb83b2a99bba34dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 27/32] fix: drawing a hypergraph must not crash when groups
 share a hyperedge

---
 dhg/visualization/structure/simulator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/visualization/structure/simulator.py b/dhg/visualization/structure/simulator.py
index 8a061d2..353601c 100644
--- a/dhg/visualization/structure/simulator.py
+++ b/dhg/visualization/structure/simulator.py
@@ -137,6 +137,7 @@ class Simulator:
         dist = e2e_dist.copy()
         r, c = np.diag_indices_from(dist)
         dist[r, c] = np.inf
+        dist[dist == 0] = np.inf  # hyperedges with the same vertices cannot be pushed apart
 
         f_scale = k / (dist ** 2)  # (m, m)
         f_dir = e_center[:, np.newaxis, :] - e_center[np.newaxis, :, :]  # (m, 1, 2) - (1, m, 2) -> (m, m, 2)
-- 
2.43.0


From 1966c004031b59993d3a808ebecde0c6326465d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 28/32] fix: drop rate zero keeps every edge even for a random
 draw of exactly 0.0

---
 dhg/structure/graphs/bipartite_graph.py | 2 +-
 dhg/structure/graphs/directed_graph.py  | 4 ++--
 dhg/structure/graphs/graph.py           | 4 ++--
 dhg/structure/hypergraphs/hypergraph.py | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 0a742ed..30b4113 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -350,7 +350,7 @@ class BiGraph(BaseGraph):
             ``ord`` (``str``): The order of dropping edges. Currently, only ``'uniform'`` is supported. Defaults to ``uniform``.
         """
         if ord == "uniform":
-            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() > drop_rate}
+            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() >= drop_rate}
             state_dict = {
                 "num_u": self.num_u,
                 "num_v": self.num_v,
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index d710c41..83d5905 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -308,8 +308,8 @@ class DiGraph(BaseGraph):
             ``ord`` (``str``): The order of dropping edges. Currently, only ``'uniform'`` is supported. Defaults to ``uniform``.
         """
         if ord == "uniform":
-            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() > drop_rate}
-            _raw_selfloop_dict = {k: v for k, v in self._raw_selfloop_dict.items() if random.random() > drop_rate}
+            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() >= drop_rate}
+            _raw_selfloop_dict = {k: v for k, v in self._raw_selfloop_dict.items() if random.random() >= drop_rate}
             state_dict = {
                 "num_v": self.num_v,
                 "raw_e_dict": _raw_e_dict,
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 77111a5..579c2e8 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -360,8 +360,8 @@ class Graph(BaseGraph):
             ``ord`` (``str``): The order of dropping edges. Currently, only ``'uniform'`` is supported. Defaults to ``uniform``.
         """
         if ord == "uniform":
-            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() > drop_rate}
-            _raw_selfloop_dict = {k: v for k, v in self._raw_selfloop_dict.items() if random.random() > drop_rate}
+            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() >= drop_rate}
+            _raw_selfloop_dict = {k: v for k, v in self._raw_selfloop_dict.items() if random.random() >= drop_rate}
             state_dict = {
                 "num_v": self.num_v,
                 "raw_e_dict": _raw_e_dict,
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index caaa561..1b89edb 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -461,7 +461,7 @@ class Hypergraph(BaseHypergraph):
         if ord == "uniform":
             _raw_groups = {}
             for name in self.group_names:
-                _raw_groups[name] = {k: v for k, v in self._raw_groups[name].items() if random.random() > drop_rate}
+                _raw_groups[name] = {k: v for k, v in self._raw_groups[name].items() if random.random() >= drop_rate}
             state_dict = {
                 "num_v": self.num_v,
                 "raw_groups": _raw_groups,
@@ -486,7 +486,7 @@ class Hypergraph(BaseHypergraph):
             for name in self.group_names:
                 if name == group_name:
                     _raw_groups[name] = {
-                        k: v for k, v in self._raw_groups[name].items() if random.random() > drop_rate
+                        k: v for k, v in self._raw_groups[name].items() if random.random() >= drop_rate
                     }
                 else:
                     _raw_groups[name] = self._raw_groups[name]
-- 
2.43.0


From a58b128b0cab2bdc2d45c207c9ac4614d0011839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 29/32] fix: integer edge weights must behave like the equal
 floats

---
 dhg/structure/base.py                   | 2 ++
 dhg/structure/graphs/bipartite_graph.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 3b51822..4af18d4 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -137,6 +137,8 @@ class BaseGraph:
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        else:
+            e_weight = [float(w) for w in e_weight]
         return e_list, e_weight
 
     # =====================================================================================
diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 30b4113..5b1d1ec 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -202,6 +202,8 @@ class BiGraph(BaseGraph):
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        else:
+            e_weight = [float(w) for w in e_weight]
         return e_list, e_weight
 
     # =====================================================================================
-- 
2.43.0


From 00dc5763292935db01f0d47858afb9668d1bbbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 30/32] fix: drawing must use the line width of every vertex

---
 dhg/visualization/structure/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index 536e8be..a2c70ac 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -134,9 +134,8 @@ def draw_vertex(
     if v_label is None:
         v_label = [""] * n
     assert len(v_label) == n, "The specified label list has the wrong length."
-    for coor, label, size, width in zip(v_coor.tolist(), v_label, v_size, v_line_width):
+    for coor, label, size in zip(v_coor.tolist(), v_label, v_size):
         circle = Circle(coor, size)
-        circle.lineWidth = width
         # circle.label = label
         if label != '':
             x, y = coor[0], coor[1]
@@ -145,7 +144,7 @@ def draw_vertex(
             y += offset[1]
             ax.text(x, y, label, fontsize=font_size, fontfamily=font_family, ha='center', va='top')
         patches.append(circle)
-    p = PatchCollection(patches, facecolors=v_color, edgecolors="black")
+    p = PatchCollection(patches, facecolors=v_color, edgecolors="black", linewidths=v_line_width)
     ax.add_collection(p)
 
 
-- 
2.43.0


From 9b5447370e81f2e40f7be913184bbe9fd97d7721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 31/32] fix: drawing a bipartite graph must use labels given
 for one side, and check the length of each side

---
 dhg/visualization/structure/draw.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 339fbae..36d571b 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -245,6 +245,10 @@ def draw_bigraph(
 
     # preprocess
     e_list = [(u, v + num_u) for u, v in e_list]
+    if u_label is not None or v_label is not None:
+        u_label = [""] * num_u if u_label is None else list(u_label)
+        v_label = [""] * num_v if v_label is None else list(v_label)
+        assert len(u_label) == num_u and len(v_label) == num_v, "The specified label list has the wrong length."
     if e_style == "line":
         draw_line_edge(
             ax, np.vstack([u_coor, v_coor]), u_size + v_size, e_list, False, e_color, e_line_width,
@@ -255,7 +259,7 @@ def draw_bigraph(
     draw_vertex(
         ax,
         np.vstack([u_coor, v_coor]),
-        list(u_label) + list(v_label) if u_label is not None and v_label is not None else None,
+        u_label + v_label if u_label is not None else None,
         u_font_size + v_font_size,
         font_family,
         u_size + v_size,
-- 
2.43.0


From 36a8222ffd0a06d890a2fd7492e1922610201d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 32/32] fix: nearest neighbours must be exact for features far
 from the origin

torch.cdist switches to a matrix-multiplication formula above 25 rows, whose
cancellation makes the neighbours wrong as soon as the features have a large
common offset.
---
 dhg/structure/hypergraphs/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 1b89edb..e6e8479 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -190,7 +190,7 @@ class Hypergraph(BaseHypergraph):
         assert (
             k <= features.shape[0]
         ), "The number of nearest neighbors should be less than or equal to the number of vertices."
-        dist_matrix = torch.cdist(features, features)
+        dist_matrix = torch.cdist(features, features, compute_mode="donot_use_mm_for_euclid_dist")
         _, nbr_indices = torch.topk(dist_matrix, k, largest=False)
         return nbr_indices.tolist()
 
-- 
2.43.0

