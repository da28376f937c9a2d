From 51206aa44a4b71ef663a6085819e10a1b14cf38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 01/82] fix: dijkstra_bidirectional returns the empty path when
 source equals target

---
 rosemary/graphs/algorithms/paths.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index b23ec23..8d582fa 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -575,6 +575,9 @@ def dijkstra_bidirectional(graph, s, t):
     if t not in graph_dict:
         raise ValueError("dijkstra_bidirectional: {} is not a vertex of graph.".format(t))
 
+    if s == t:
+        return 0, [s]
+
     # Search forward from `s`.
     forward_search = dijkstra_iterator(graph, s)
     forward_estimate = {}
-- 
2.43.0


From 5a263d579c7d6732d66eef992e8abc339d183af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 02/82] fix: LeftistHeap can be built from an empty or
 single-element list

---
 rosemary/data_structures/heaps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/data_structures/heaps.py b/rosemary/data_structures/heaps.py
index 891f1a0..d02cae5 100644
--- a/rosemary/data_structures/heaps.py
+++ b/rosemary/data_structures/heaps.py
@@ -120,8 +120,8 @@ class LeftistHeap(object):
             num_values -= 1
             size += 1
 
-        self.root = nodeA
-        self.size = size + 1
+        self.root = nodes[0] if nodes else None
+        self.size = size + len(nodes)
 
     def __repr__(self):
         return "Leftist heap of size {}.".format(self.size)
-- 
2.43.0


From d281f877726765bd8b7886cbee80c096924dc1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 03/82] fix: minimum spanning forests of disconnected graphs

---
 rosemary/graphs/algorithms/spanning_trees.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index aad03bd..c0fe2e1 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -181,7 +181,8 @@ def kruskal(graph):
     union = X.union
 
     # A tree on n vertices has n - 1 edges, so break when finished.
-    while num_edges < num_vertices - 1:
+    # If the graph is not connected, the edges run out first.
+    while edges and num_edges < num_vertices - 1:
         (weight, u, v) = heappop(edges)
         if find(u) != find(v):
             edge = min(u, v), max(u, v)
@@ -248,12 +249,19 @@ def cheriton_tarjan(graph):
             triples.append((weight, u, v))
         PQ[u] = LeftistHeap(triples)
 
-    while num_edges < num_vertices - 1:
+    while PQ and num_edges < num_vertices - 1:
         u = choice(list(PQ.keys()))
         Tu = find(u)
+        complete = False
 
         while True:
-            (_, x, y) = PQ[Tu].delete_min()
+            triple = PQ[Tu].delete_min()
+            if triple is None:
+                # No edges leave this tree, so its component is complete.
+                complete = True
+                break
+
+            (_, x, y) = triple
             Tx = find(x)
             Ty = find(y)
 
@@ -266,6 +274,10 @@ def cheriton_tarjan(graph):
                 Tv = Tx
             break
 
+        if complete:
+            del PQ[Tu]
+            continue
+
         union(Tu, Tv)
         u = find(Tu)
 
-- 
2.43.0


From b1279d4326eb1b3438e583d1671f2bd8ced02dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 04/82] fix: gabow breaks ties without comparing predecessor
 dicts

---
 rosemary/graphs/algorithms/spanning_trees.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index c0fe2e1..fb24f0a 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -1,4 +1,5 @@
 from heapq import heappush, heappop, heapify
+from itertools import count
 from random import choice
 
 from rosemary.data_structures.unionfind import UnionFind, NamedUnionFind
@@ -371,14 +372,16 @@ def gabow(graph, k=None):
     father[root] = root
 
     (exchange_weight, e, f) = find_exchange(father, [], [])
-    heap = [(tree_weight + exchange_weight, e, f, father, [], [])]
+    # The counter breaks ties, so that predecessor dicts are never compared.
+    counter = count()
+    heap = [(tree_weight + exchange_weight, e, f, next(counter), father, [], [])]
 
     tree_edges = sorted([(min(x, y), max(x, y)) for (x, y) in father.items() if x != y])
     yield tree_weight, tree_edges
 
     j = 1
     while j < k:
-        (tree_weight, e, f, father, included, excluded) = heappop(heap)
+        (tree_weight, e, f, _, father, included, excluded) = heappop(heap)
 
         if tree_weight == inf:
             return
@@ -400,8 +403,8 @@ def gabow(graph, k=None):
         excluded_j = excluded + [e]
 
         (exchange_weight, e, f) = find_exchange(father, included_i, excluded)
-        heappush(heap, (new_tree_weight + exchange_weight, e, f, father, included_i, excluded))
+        heappush(heap, (new_tree_weight + exchange_weight, e, f, next(counter), father, included_i, excluded))
 
         (exchange_weight, e, f) = find_exchange(new_father, included, excluded_j)
-        heappush(heap, (tree_weight + exchange_weight, e, f, new_father, included, excluded_j))
+        heappush(heap, (tree_weight + exchange_weight, e, f, next(counter), new_father, included, excluded_j))
         j += 1
-- 
2.43.0


From 6e3237b190df0744d270a38a9a3831d855ac7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 05/82] fix: korman colors vertices without neighbors

---
 rosemary/graphs/algorithms/coloring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 91b7c4b..7b80f84 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -565,8 +565,8 @@ def korman(graph, classes=True):
 
         while idx >= clique_size:
             if find_next_s:
-                max_adj = 0
-                max_deg = 0
+                max_adj = -1
+                max_deg = -1
                 for u in uncolored:
                     adjacent_colors = {color[v] for v in graph_dict[u]}
                     num_adjacent = len(adjacent_colors)
-- 
2.43.0


From 606cbd8d7cc91e620b4a3523a8e9ce91ebcd9f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 06/82] fix: branch_and_bound colors complete graphs

---
 rosemary/graphs/algorithms/coloring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 7b80f84..5ea341b 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -453,7 +453,8 @@ def branch_and_bound(graph, classes=True):
             return best_number
 
     vertices = graph.vertices()
-    best = [len(vertices), []]
+    # Start with the coloring that gives every vertex its own color.
+    best = [len(vertices), {u: i for (i, u) in enumerate(vertices, 1)}]
 
     # color_map and uncolored are global data structure used by the
     # recursive method.
-- 
2.43.0


From 4053154b72dd1555bcb30a31e874c0e434d148f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 07/82] fix: culberson finds independent sets of vertices
 without neighbors

---
 rosemary/graphs/algorithms/independent_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/independent_sets.py b/rosemary/graphs/algorithms/independent_sets.py
index 65867d2..6d647ab 100644
--- a/rosemary/graphs/algorithms/independent_sets.py
+++ b/rosemary/graphs/algorithms/independent_sets.py
@@ -159,7 +159,7 @@ def culberson(graph):
             return (0, 0, [])
 
         max_size = 0
-        max_deg = 0
+        max_deg = -1
         max_set = []
 
         vertices[0], vertices[-1] = vertices[-1], vertices[0]
-- 
2.43.0


From 05e3f6bb6bb29e5db764323450891997ef7e8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 08/82] fix: Steiner tree of a single terminal

---
 rosemary/graphs/algorithms/steiner_trees.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rosemary/graphs/algorithms/steiner_trees.py b/rosemary/graphs/algorithms/steiner_trees.py
index 2f17a78..667f976 100644
--- a/rosemary/graphs/algorithms/steiner_trees.py
+++ b/rosemary/graphs/algorithms/steiner_trees.py
@@ -77,6 +77,10 @@ def distance_network_heuristic(graph, terminals):
     (17, [('u1', 'u2'), ('u1', 'v1'), ('u1', 'v2'), ('u2', 'v3'),
           ('u2', 'v4'), ('v2', 'v5')])
     """
+    # A single terminal is a Steiner tree without edges.
+    if len(terminals) == 1:
+        return 0, []
+
     # Create the distance network induced by the terminal set.
     distance_network = Graph()
 
@@ -176,6 +180,10 @@ def minimum_cost_paths_heuristic(graph, terminals):
     (17, [('u1', 'u2'), ('u1', 'v1'), ('u1', 'v2'), ('u2', 'v3'),
           ('u2', 'v4'), ('v2', 'v5')])
     """
+    # A single terminal is a Steiner tree without edges.
+    if len(terminals) == 1:
+        return 0, []
+
     # shortest_prev[u] holds the predecessor dict for the shortest path
     # tree rooted at u.
     shortest_prev = {}
-- 
2.43.0


From 587b0e93b04972969f132735dd202a8d79b6dfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:25 +0000
Subject: [PATCH 09/82] fix: walks counts walks of length zero

---
 rosemary/graphs/algorithms/hamiltonian_paths.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index d5f1f7a..9fd89ea 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -236,10 +236,9 @@ def walks(graph, a, n, allowed):
     neighbors = {u: graph.neighbors(u) & allowed for u in allowed}
 
     num_walks = {u: 0 for u in allowed}
-    for u in neighbors[a]:
-        num_walks[u] += 1
+    num_walks[a] = 1
 
-    for i in range(n - 1):
+    for i in range(n):
         num_walks2 = {u: 0 for u in allowed}
         for u in allowed:
             for v in neighbors[u]:
-- 
2.43.0


From ff52a83ec90de6dfc549f9c3c64a71381b53fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 10/82] fix: number_of_hamiltonian_paths5_con counts
 Hamiltonian paths

---
 .../graphs/algorithms/hamiltonian_paths.py    | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/rosemary/graphs/algorithms/hamiltonian_paths.py b/rosemary/graphs/algorithms/hamiltonian_paths.py
index 9fd89ea..21ddb25 100644
--- a/rosemary/graphs/algorithms/hamiltonian_paths.py
+++ b/rosemary/graphs/algorithms/hamiltonian_paths.py
@@ -275,23 +275,24 @@ def number_of_hamiltonian_paths5_con(graph):
     graph : rosemary.graphs.graphs.Graph
         Weighted graph with nonnegative edge weights.
     """
-    vertices = graph.vertices()
+    vertices = graph.vertex_set()
     n = len(vertices)
 
-    def extend(partial, idx):
-        if is_connected2(graph, graph.vertex_set() - set(partial)):
-            yield partial
-
-            for i in range(idx, n):
-                for foo in extend(partial + [vertices[i]], i + 1):
-                    yield foo
-
+    # Grouping the walks by the component of `allowed` in which they stay, only
+    # the connected sets adjacent to every other vertex have a nonzero
+    # coefficient.
     total = 0
-    for allowed in extend([], 0):
-        for a in allowed:
-            num_walks = walks(graph, a, n - 1, set(allowed))
-            for u in allowed:
-                total += (-1)**(n - len(allowed))*num_walks[u]
+    for s in range(1, n + 1):
+        for subset in itertools.combinations(vertices, s):
+            allowed = set(subset)
+            reached = allowed.union(*[graph.neighbors(u) for u in allowed])
+            if reached != vertices or not is_connected2(graph, allowed):
+                continue
+
+            for a in allowed:
+                num_walks = walks(graph, a, n - 1, allowed)
+                for u in allowed:
+                    total += (-1)**(n - s)*num_walks[u]
 
     return total
 
-- 
2.43.0


From 4298b40e4498cbaefdb5c2fbeef0b0ab7d4e9dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 11/82] fix: is_graphic_erdos_gallai requires an even sum of
 nonnegative degrees

---
 rosemary/graphs/algorithms/degree_sequences.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rosemary/graphs/algorithms/degree_sequences.py b/rosemary/graphs/algorithms/degree_sequences.py
index 575b73d..abf7b29 100644
--- a/rosemary/graphs/algorithms/degree_sequences.py
+++ b/rosemary/graphs/algorithms/degree_sequences.py
@@ -77,6 +77,11 @@ def is_graphic(S):
 
 def is_graphic_erdos_gallai(S):
     T = sorted(S, reverse=True)
+
+    # Degrees are nonnegative, and their sum is twice the number of edges.
+    if sum(T) % 2 == 1 or (T and T[-1] < 0):
+        return False
+
     d_sum = 0
 
     for k in range(len(T)):
-- 
2.43.0


From 78e10cf1cc9b54e9a599e7d6e6b83ff9489d9a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 12/82] fix: graph constructors keep vertices without edges

---
 rosemary/graphs/graphs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 7cdcb77..df91e9d 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1040,6 +1040,7 @@ def complete_graph(n):
         6
     """
     Kn = Graph()
+    Kn.add_vertices(range(n))
 
     for u in range(n):
         for v in range(u):
@@ -1193,6 +1194,7 @@ def coprime_pairs_graph(n):
         return x
 
     graph = Graph()
+    graph.add_vertices(range(1, n + 1))
     for i in range(1, n + 1):
         for j in range(1, i):
             if gcd(i, j) == 1:
@@ -1253,6 +1255,7 @@ def odd_graph(k):
 
 def grid_graph(n):
     graph = Graph()
+    graph.add_vertices(range(n*n))
 
     for i in range(n):
         for j in range(n):
-- 
2.43.0


From 2e649996e3a35dd1c81cd14a4552f034182a16ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 13/82] fix: odd_graph with more than ten elements

---
 rosemary/graphs/graphs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index df91e9d..82665ab 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1240,14 +1240,15 @@ def odd_graph(k):
     [('0', '1'), ('0', '2'), ('1', '2')]
     """
     graph = Graph()
-    ints = ''.join(map(str, range(2*k - 1)))
+    subsets = {}
 
-    for tup in itertools.combinations(ints, k - 1):
+    for tup in itertools.combinations(map(str, range(2*k - 1)), k - 1):
         u = ''.join(tup)
+        subsets[u] = set(tup)
         graph.add_vertex(u)
 
     for (u, v) in itertools.combinations(graph.vertices(), 2):
-        if len(set(u) & set(v)) == 0:
+        if len(subsets[u] & subsets[v]) == 0:
             graph.add_edge(u, v)
 
     return graph
-- 
2.43.0


From 8ba2c49e008734841a48805f7fb940fcdc127421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 14/82] fix: permutation generators handle repeated, few and no
 elements

---
 .../combinatorics/generation/permutations.py    | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index 1c71f7f..e0d0186 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -69,13 +69,14 @@ def phillips(elements):
 
     # The Phillips algorithm assumes that there at least three elements in
     # the list. We handle the other cases separately.
-    if n == 0:
+    if n <= 0:
         yield entries[:]
         return
 
     if n == 1:
         yield [entries[0], entries[1]]
-        yield [entries[1], entries[0]]
+        if entries[0] != entries[1]:
+            yield [entries[1], entries[0]]
         return
 
     while True:
@@ -107,7 +108,7 @@ def phillips(elements):
             # L2.2' [Find j]
             j = n - 3
             y = entries[j]
-            while y >= x:
+            while j >= 0 and y >= x:
                 j -= 1
                 x = y
                 y = entries[j]
@@ -378,6 +379,16 @@ def knuth_algorithm_l_rvariations(elements, r):
     """
     entries = sorted(elements)
     n = len(entries) - 1
+
+    # There is exactly one variation of length zero, and there are none which
+    # use more elements than are available.
+    if r == 0:
+        yield []
+        return
+
+    if r > n + 1:
+        return
+
     r = r - 1
 
     while True:
-- 
2.43.0


From 36e50a635ebdc04e108f9b6374e81af9426a4442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 15/82] fix: combinations of more elements than there are

---
 rosemary/combinatorics/generation/combinations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/generation/combinations.py b/rosemary/combinatorics/generation/combinations.py
index fbc247a..443360a 100644
--- a/rosemary/combinatorics/generation/combinations.py
+++ b/rosemary/combinatorics/generation/combinations.py
@@ -2,6 +2,9 @@ def combinations(n, t):
     """
     generates all combinations of 0, 1, ..., n - 1 of size t.
     """
+    if t > n:
+        return
+
     c = [0] + [j - 1 for j in range(1, t + 1)] + [n, 0]
 
     while True:
-- 
2.43.0


From 9d4d1b9fff615ea668b01aeee14d4b1e43735d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 16/82] fix: n_tuples with bounds given as a tuple or equal to
 zero

---
 rosemary/combinatorics/generation/tuples.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/generation/tuples.py b/rosemary/combinatorics/generation/tuples.py
index 11082d8..0a4c858 100644
--- a/rosemary/combinatorics/generation/tuples.py
+++ b/rosemary/combinatorics/generation/tuples.py
@@ -29,9 +29,9 @@ def n_tuples(n, M=None):
     """
     A = [0 for j in range(n + 1)]
 
-    if isinstance(M, list):
+    if isinstance(M, (list, tuple)):
         if len(M) == n:
-            M = [2] + M
+            M = [2] + list(M)
     else:
         if isinstance(M, int):
             bd = M
@@ -39,6 +39,9 @@ def n_tuples(n, M=None):
             bd = 2
         M = [2] + [bd for j in range(n)]
 
+    if min(M) <= 0:
+        return
+
     while True:
         yield A[1:]
         j = n
-- 
2.43.0


From 390dd6a7ec8c1fd10e6161645adcae92080a6cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 17/82] fix: integer_partitions of zero, into one part, and
 with distinct custom parts

---
 rosemary/combinatorics/generation/partitions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 04955e8..0f1883a 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -69,7 +69,6 @@ def integer_partitions(n, **kwargs):
     if 'num_parts' in kwargs:
         num_parts = kwargs['num_parts']
         if num_parts > n:
-            yield []
             return
     else:
         num_parts = 0
@@ -79,6 +78,10 @@ def integer_partitions(n, **kwargs):
         Generates all partitions of n. This is Algorithm P from 7.2.1.4 of
         Knuth, Vol. 4.
         """
+        if n == 0:
+            yield []
+            return
+
         partition = [0]*n
         last_replaced = 0
         partition[last_replaced] = n
@@ -113,6 +116,10 @@ def integer_partitions(n, **kwargs):
         partition = [1]*m
         partition[0] = n - m + 1
 
+        if m == 1:
+            yield partition
+            return
+
         while True:
             yield partition[:]
             if partition[1] < partition[0] - 1:
@@ -142,8 +149,8 @@ def integer_partitions(n, **kwargs):
         elif partial_sum < n:
             if num_parts and num_used >= num_parts:
                 return
-            idx = 0
-            if last_idx != 0:
+            idx = last_idx
+            if num_used:
                 idx = last_idx + distinct
             for i in range(idx, total_number):
                 part = parts[i]
-- 
2.43.0


From e2dbb2724023eac6e0f49964f84421c0e6592757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:49 +0000
Subject: [PATCH 18/82] fix: partition_list(0)

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 489a572..697f054 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -166,9 +166,8 @@ def partition_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = 1
 
-    for m in range(2, n + 1):
+    for m in range(1, n + 1):
         max_idx = int((1 + (1 + 24*m)**(0.5))/6)
         sign = (-1)**(max_idx + 1)
         total = 0
-- 
2.43.0


From 198528af73094a6f6bc5ee9dd8aaaa07e7654b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:49 +0000
Subject: [PATCH 19/82] fix: Stirling numbers of the second kind

---
 rosemary/combinatorics/enumeration/enumeration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 697f054..319acad 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -50,6 +50,9 @@ def bell_number(n):
 
 
 def stirling_number2(m, n):
+    if n > m:
+        return 0
+
     S = {}
     S[0, 0] = 1
 
@@ -61,7 +64,7 @@ def stirling_number2(m, n):
 
     for i in range(1, m + 1):
         for j in range(1, min(i, n) + 1):
-            S[i, j] = j*S[i - 1, j] + S[i - j, j - 1]
+            S[i, j] = j*S[i - 1, j] + S[i - 1, j - 1]
 
     return S[m, n]
 
-- 
2.43.0


From b46f49df3d670fe9df10af191bb89ed9edcbe25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:49 +0000
Subject: [PATCH 20/82] fix: binomial is zero when choosing too many

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 319acad..7276730 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -87,6 +87,9 @@ def binomial(n, k):
         >>> binomial(2, 0)
         1
     """
+    if k > n:
+        return 0
+
     pp = 1
     k = min(k, n - k)
     for e in range(n - k + 1, n + 1):
-- 
2.43.0


From f706e47b058bf9b4555cc31a262b42c155fa4098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:49 +0000
Subject: [PATCH 21/82] fix: necklaces with prescribed weights

---
 rosemary/combinatorics/enumeration/enumeration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 7276730..b895b34 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -3,7 +3,7 @@
 # in to an enumeration algorithm, but we prefer algorithms more advanced than
 # simply listing and counting whenever possible.
 
-from rosemary.number_theory.core import gcd
+from rosemary.number_theory.core import gcd_list
 from rosemary.number_theory.factorization.factorization import xdivisors
 from rosemary.number_theory.arithmetic_functions.functions import euler_phi, factorial
 
@@ -397,7 +397,7 @@ def necklaces(n, k, weights=None):
         16
     """
     if weights:
-        j = gcd(weights)
+        j = gcd_list(weights)
         ss = 0
         for d in xdivisors(j):
             ll = [e//d for e in weights]
-- 
2.43.0


From 1f8866437ec5b15c0e643fc28a043da59f86b1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 22/82] fix: domino_tilings of a single square

---
 rosemary/combinatorics/optimization/exact_cover.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/optimization/exact_cover.py b/rosemary/combinatorics/optimization/exact_cover.py
index db7afea..c0311e0 100644
--- a/rosemary/combinatorics/optimization/exact_cover.py
+++ b/rosemary/combinatorics/optimization/exact_cover.py
@@ -223,6 +223,9 @@ def domino_ints(n):
 def domino_tilings(n):
     ints = domino_ints(n)
     E = ExactCoverBinary(ints)
+
+    # every square has to be covered, also those no domino fits on
+    E.num_bits = n*n
     num_sols = E.number_of_solutions()
     return num_sols
 
-- 
2.43.0


From 245e70e86d069a2dfb00881d5bd55fb74aa6bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:05 +0000
Subject: [PATCH 23/82] fix: simulated annealing without items

---
 rosemary/combinatorics/optimization/knapsack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/optimization/knapsack.py b/rosemary/combinatorics/optimization/knapsack.py
index c9f3844..b0b6a17 100644
--- a/rosemary/combinatorics/optimization/knapsack.py
+++ b/rosemary/combinatorics/optimization/knapsack.py
@@ -180,6 +180,9 @@ def simulated_annealing(items, capacity):
     alpha = 0.99999
     n = len(items)
 
+    if n == 0:
+        return 0, []
+
     current_items = [0]*n
     current_weight = 0
     best_items = list(current_items)
-- 
2.43.0


From 6ab234d900f3b15442729981ba9305af8c04c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 24/82] fix: steepest_ascent_two_opt starts from a tour of the
 given distance matrix

---
 rosemary/combinatorics/optimization/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index db73df8..41b9234 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -227,7 +227,7 @@ def steepest_ascent_two_opt(points, distance_matrix=None):
         distance_matrix = euclidean_distance_matrix(points)
 
     num_points = len(points)
-    best_cost, best_sol = farthest_insertion(points)
+    best_cost, best_sol = farthest_insertion(points, distance_matrix)
 
     def G(X, i, j):
         xi = X[i]
-- 
2.43.0


From 2adc88536b3f7bcc6fa3cf62d49ca7dc8424b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 25/82] fix: genetic solver returns its best tour

---
 rosemary/combinatorics/optimization/genetic_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/genetic_tsp.py b/rosemary/combinatorics/optimization/genetic_tsp.py
index c031643..77bc74a 100755
--- a/rosemary/combinatorics/optimization/genetic_tsp.py
+++ b/rosemary/combinatorics/optimization/genetic_tsp.py
@@ -166,7 +166,7 @@ class TravelingSalesman(object):
             current_cost = population[0][0]
 
             if current_cost < best_cost:
-                Xbest = list(population[1])
+                Xbest = list(population[0][1])
                 best_cost = current_cost
                 print(c, best_cost)
 
-- 
2.43.0


From 44e1f285c836ec38002e52e390194162ef2355ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 26/82] fix: gcd_list and lcm_list of one negative number are
 nonnegative

---
 rosemary/number_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index d04b7b4..5892287 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -59,7 +59,7 @@ def gcd_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = gcd(L[0], L[1])
     for i in range(2, num_values):
@@ -177,7 +177,7 @@ def lcm_list(L):
     """
     num_values = len(L)
     if num_values == 1:
-        return L[0]
+        return abs(L[0])
 
     partial = lcm(L[0], L[1])
     for i in range(2, num_values):
-- 
2.43.0


From 3557141974fe7fe5c55b6bca8a150713697c55da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 27/82] fix: chinese reduces the residue of a single congruence

---
 rosemary/number_theory/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 5892287..ee64109 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -580,6 +580,7 @@ def chinese(congruences):
         Algebraic Number Theory" by Cohen.
     """
     (x, m) = congruences[0]
+    x = x % m
     rest = congruences[1:]
 
     for (xi, mi) in rest:
-- 
2.43.0


From d7a37f03e7172a8ba5ab53fcbaf2ec867534d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 28/82] fix: power_mod with exponent zero

---
 rosemary/number_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index ee64109..5785a59 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -223,10 +223,10 @@ def power_mod(a, k, m):
     if m < 1:
         raise ValueError("power_mod: Must have m >= 1.")
 
+    if k == 0:
+        return 1 % m
     if a % m == 0:
         return 0
-    if k == 0:
-        return 1
 
     a = a % m
     t = 1
-- 
2.43.0


From 9d90d58383f20f28e5b127771084074f1b50e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 29/82] fix: integer_sqrt of integers near 2**60

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 5785a59..86b75fe 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -525,7 +525,7 @@ def integer_sqrt(n):
         return n
 
     # if n is small enough, compute the square root and round
-    if n <= 2**60:
+    if n <= 2**50:
         return int(n**(0.5))
 
     bits = n.bit_length()
-- 
2.43.0


From e0e16867670b987150762e81d5f550f61dab9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 30/82] fix: valuation of negative integers

---
 rosemary/number_theory/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 86b75fe..5deae85 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -791,11 +791,12 @@ def valuation(p, n):
         that divides n. The method is essentially the same as the one used to
         compute an integer logarithm.
     """
+    p = abs(p)
+    n = abs(n)
+
     if n % p != 0 or p > n:
         return 0
 
-    p = abs(p)
-    n = abs(n)
     pk = p
     hi = 1
 
-- 
2.43.0


From b54a7ebd1c62d6b8545bd839373e29ce510e918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:46 +0000
Subject: [PATCH 31/82] fix: random base for testing 3

---
 rosemary/number_theory/primes/primality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index cf3a668..f859bfa 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -61,7 +61,7 @@ def solovay_strassen(n, a=None):
     True
     """
     if a is None:
-        a = randint(2, n - 2)
+        a = randint(2, max(2, n - 2))
 
     jacobi = jacobi_symbol(a, n)
     if jacobi == 0 or jacobi % n != pow(a, (n - 1)//2, n):
@@ -91,7 +91,7 @@ def miller_rabin(n, a=None):
     --------
     """
     if a is None:
-        a = randint(2, n - 2)
+        a = randint(2, max(2, n - 2))
 
     t = n - 1
     s = 0
-- 
2.43.0


From ee09c88df9d1835abe575bd5b920688476742dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:46 +0000
Subject: [PATCH 32/82] fix: next_prime and next_probable_prime below 1

---
 rosemary/number_theory/primes/primality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index f859bfa..0a62fb5 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -234,7 +234,7 @@ def next_prime(n):
     >>> next_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n < 2:
         return 2
 
     n += 1
@@ -257,7 +257,7 @@ def next_probable_prime(n):
     >>> next_probable_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n < 2:
         return 2
 
     n += 1
-- 
2.43.0


From dc8dde1c967cc55c2d651a3e41f1a50b517dbbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:01 +0000
Subject: [PATCH 33/82] fix: prime_range excludes its upper end

---
 rosemary/number_theory/primes/sieves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/sieves.py b/rosemary/number_theory/primes/sieves.py
index 9bf9a5d..8622968 100644
--- a/rosemary/number_theory/primes/sieves.py
+++ b/rosemary/number_theory/primes/sieves.py
@@ -518,7 +518,7 @@ def prime_range(a, b=None):
     # If the upper bound is less than some appropriate cutoff, we generate all
     # primes up to this limit yield the ones in the interval.
     if b <= cutoff:
-        prime_list = primes(b)
+        prime_list = primes(b - 1)
         idx = bisect_left(prime_list, a)
         for i in range(idx, len(prime_list)):
             yield prime_list[i]
-- 
2.43.0


From 6ffeb2050bf6c09843f8a88c19b3a33b1823e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:01 +0000
Subject: [PATCH 34/82] fix: long prime ranges include a prime lower end

---
 rosemary/number_theory/primes/sieves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/sieves.py b/rosemary/number_theory/primes/sieves.py
index 8622968..9001a27 100644
--- a/rosemary/number_theory/primes/sieves.py
+++ b/rosemary/number_theory/primes/sieves.py
@@ -531,7 +531,7 @@ def prime_range(a, b=None):
         # case, then we yield the primes <= sqrt(b) first.
         if a <= sqrt:
             # If a*a <= b, iterate over the primes a <= p <= sqrt(b) first.
-            idx = bisect(prime_list, a)
+            idx = bisect_left(prime_list, a)
             for i in range(idx, len(prime_list)):
                 yield prime_list[i]
 
-- 
2.43.0


From 51c99386b0e7782005c0336c7f634d2b5f9cfb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 35/82] fix: lehmer just below fourth powers of primes

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index ac1c280..8ed43f4 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -203,7 +203,7 @@ def lehmer(n):
                          x//24310 - x//34034 - x//15015 - x//19635 - x//23205 - x//36465 - x//51051 - x//85085 +
                          x//30030 + x//39270 + x//46410 + x//72930 + x//102102 + x//170170 + x//255255 - x//510510)
 
-        elif a >= bisect(primes, x**(0.5)) and x < primes[-1]:
+        elif a >= bisect(primes, x**(0.5)) and x <= root:
             pi = bisect(primes, x)
             value = pi - a + 1
 
-- 
2.43.0


From 4f05f766c68f78fda76a180721b97472b18e3a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 36/82] fix: lmo_bit for small arguments and cubes

---
 rosemary/number_theory/primes/prime_counting.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 8ed43f4..0989680 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -300,13 +300,15 @@ def lmo(x):
 
 
 def lmo_bit(x):
-    root = int(x**(2.0/3.0))
+    if x < 8:
+        return bisect([2, 3, 5, 7], x)
 
+    root = integer_nth_root(3, x**2)
     primes = sieves.primes(root)
-    t = x**(0.33333333333333)
 
+    t = integer_nth_root(3, x)
     c = bisect(primes, t)
-    b = bisect(primes, x**(0.5))
+    b = bisect(primes, integer_nth_root(2, x))
 
     value = (b + c - 2)*(b - c + 1)//2
 
-- 
2.43.0


From e0de61ebf447e97fcb719f091fa6e67d2159052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 37/82] fix: prime sums up to zero

---
 rosemary/number_theory/primes/prime_counting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 0989680..07cce8a 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -360,6 +360,9 @@ def lmo_bit(x):
 
 
 def prime_sum2(n):
+    if n < 2:
+        return 0
+
     root = integer_sqrt(n)
     primes = sieves.primes(root)
     a = len(primes)
@@ -399,6 +402,9 @@ def prime_sum2(n):
 
 
 def prime_sum(n):
+    if n < 2:
+        return 0
+
     r = integer_sqrt(n)
     V = [n//i for i in range(1, r + 1)]
     V += range(V[-1] - 1, 0, -1)
-- 
2.43.0


From 5a5ed8686e1daa8ce570549037db584b5e33ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 38/82] fix: pi_table below 2

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 07cce8a..6418faa 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -458,7 +458,7 @@ def pi_table(n):
         table[last:p] = [i]*(p - last)
         last = p
 
-    table[last:n + 1] = [i + 1]*(n + 1 - last)
+    table[last:n + 1] = [len(primes)]*(n + 1 - last)
 
     return primes, table
 
-- 
2.43.0


From 6881cebc7df1390b1a8ba179832475e60d36b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 39/82] fix: prime_count counts no primes up to 1

---
 rosemary/number_theory/primes/prime_counting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 6418faa..eb2e50d 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -475,4 +475,6 @@ def prime_count(n):
                 if v < p*p:
                     break
                 S[v] -= (S[v//p] - S[p - 1])
+
+    S[1] = 0
     return S
-- 
2.43.0


From ff029d0232fb170c5a329d34cf0e7236e53b3296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 40/82] fix: fermat finds the root of a perfect square and
 never returns 1

---
 rosemary/number_theory/factorization/algorithms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 2ed8636..d5ec630 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -137,10 +137,14 @@ def fermat(n):
     if n % 2 == 0:
         return 2
 
-    for a in range(integer_sqrt(n) + 1, (n + 9)//6 + 1):
+    root = integer_sqrt(n)
+    if root*root == n:
+        return root
+
+    for a in range(root + 1, (n + 9)//6 + 1):
         t = a*a - n
         b = integer_sqrt(t)
-        if b*b == t:
+        if b*b == t and a - b > 1:
             return a - b
 
     return n
-- 
2.43.0


From 97d94cd8909b9f140f6147756ee915fb29345497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 41/82] fix: lehman starts from the ceiling of sqrt(4kn)

---
 rosemary/number_theory/factorization/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index d5ec630..69a69ab 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -205,6 +205,8 @@ def lehman(n):
         # and a = r (mod m)
         fkn = 4*k*n
         a = integer_sqrt(fkn)
+        if a*a < fkn:
+            a += 1
         # now, increase a until a = r (mod m)
         rm = r % m
         while a % m != rm:
-- 
2.43.0


From b96c2256ca6670e7a334e5d22771c3923a20ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 42/82] fix: lehman divides by 2 for n < 8

---
 rosemary/number_theory/factorization/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 69a69ab..0956413 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -190,7 +190,7 @@ def lehman(n):
     """
     # first, we trial divide up to floor(n^(1/3))
     bound = integer_nth_root(3, n)
-    d = trial_division(n, bound)
+    d = trial_division(n, max(2, bound))
     if d < n:
         return d
 
-- 
2.43.0


From 07dafbd70583428c9e255fb4db873a7be4e2610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 43/82] fix: cfrac handles n whose multiple k*n is a perfect
 square

---
 rosemary/number_theory/factorization/algorithms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 0956413..8d395e8 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -504,6 +504,12 @@ def cfrac(n, k=None):
         if n % p == 0:
             return p
 
+    # The continued fraction expansion needs k*n not to be a square.
+    root = integer_sqrt(kn)
+    if root*root == kn:
+        d = gcd(root, n)
+        return d if 1 < d < n else None
+
     # Our factor base needs to include -1 and 2, and the odd primes p for
     # which (kN|p) = 0 or 1.
     factor_base = [-1]
-- 
2.43.0


From 3232ff981fe479c934e7f3fcc7cfdc91dff9a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 44/82] fix: factor falls back to Pollard rho when cfrac finds
 no divisor

---
 rosemary/number_theory/factorization/factorization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 81ef216..a4011e7 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -69,7 +69,9 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
 
     _is_prime = is_probable_prime
     if use_cfrac:
-        _factor = algorithms.cfrac
+        # cfrac may fail to find a divisor, in which case we use Pollard rho.
+        def _factor(m):
+            return algorithms.cfrac(m) or algorithms.pollard_rho_brent(m)
     else:
         _factor = algorithms.pollard_rho_brent
 
-- 
2.43.0


From 5c6ae8a8d6428f838e893b8ae579330dbf0142f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 45/82] fix: factor takes the sign off before looking for a
 perfect power

---
 .../number_theory/factorization/factorization.py    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index a4011e7..27eed9b 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -78,8 +78,12 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
     if n == 0:
         raise ValueError("Prime factorization of 0 not defined")
 
+    # Take care of the sign
+    negative = n < 0
+    n = abs(n)
+
     # Detect perfect powers.
-    if not skip_power_detection:
+    if not skip_power_detection and n > 1:
         ab = rosemary.number_theory.classification.is_power(n)
         if ab:
             (n, multiplier) = ab
@@ -88,11 +92,6 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
     else:
         (n, multiplier) = (n, 1)
 
-    # Take care of the sign
-    if n < 0:
-        fac[-1] = 1
-        n *= -1
-
     # Strip off all small factors of n
     for p in _PRIME_LIST:
         if n == 1:
@@ -120,6 +119,8 @@ def factor(n, skip_trial_division=False, skip_power_detection=True, use_cfrac=Fa
                 n = n // d
 
     factorization = sorted([(p, fac[p]*multiplier) for p in fac])
+    if negative:
+        factorization.insert(0, (-1, 1))
     return factorization
 
 
-- 
2.43.0


From 9485cbcce12bd04d8109a4152396c1aee66c3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 46/82] fix: is_probable_prime tests the bases up to 41

---
 rosemary/number_theory/primes/primality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index 0a62fb5..300d32f 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -180,7 +180,7 @@ def is_probable_prime(n):
         Crandall and Pomerance for details.
     """
     # return all(solovay_strassen(n, a) for a in range(2, min(n - 1, 20)))
-    return all(miller_rabin(n, a) for a in range(2, min(n - 1, 20)))
+    return all(miller_rabin(n, a) for a in range(2, min(n - 1, 42)))
 
 
 def is_prime(n):
-- 
2.43.0


From 8757dd872cfd1d90ec48e61a2c92b5093672f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 47/82] fix: smooth_factor factors units over the base [-1]

---
 rosemary/number_theory/factorization/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 8d395e8..53348d5 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -752,6 +752,8 @@ def smooth_factor(n, factor_base):
         if n == 1:
             return exponents
 
+    if n == 1:
+        return exponents
     raise ValueError("smooth_factor: n does not factor over the given factor base")
 
 
-- 
2.43.0


From 02408840d8621f427b895dac4f1a4834e9f1546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 48/82] fix: divisor functions accept the empty factorization
 of 1

---
 rosemary/number_theory/factorization/factorization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 27eed9b..546b827 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -190,7 +190,7 @@ def divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -237,7 +237,7 @@ def divisor_pairs(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     div_list = divisors(n, factorization=factorization)
@@ -282,7 +282,7 @@ def prime_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     return [p for (p, e) in factorization]
@@ -315,7 +315,7 @@ def xdivisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -334,7 +334,7 @@ def unitary_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-- 
2.43.0


From f5f74d83f53fb0fc6c68ca78a20afd28d5ae8793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 49/82] fix: unitary_divisors works for 1 and for a
 factorization alone

---
 rosemary/number_theory/factorization/factorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 546b827..212ced6 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -338,9 +338,9 @@ def unitary_divisors(n=None, factorization=None):
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-    div_list = [1, n]
+    div_list = []
 
-    for i in range(1, len(pk_divisors)):
+    for i in range(len(pk_divisors) + 1):
         for subset in itertools.combinations(pk_divisors, i):
             prod = 1
             for pk in subset:
-- 
2.43.0


From aecb3bb5b976b349e483df2197b5c8c65ed06e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 50/82] fix: divisor_pairs works for a factorization alone

---
 rosemary/number_theory/factorization/factorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 212ced6..4e30c93 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -240,7 +240,8 @@ def divisor_pairs(n=None, factorization=None):
         if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
-    div_list = divisors(n, factorization=factorization)
+    div_list = divisors(factorization=factorization)
+    n = div_list[-1]
 
     pairs = []
     for d in div_list:
-- 
2.43.0


From 43bc7d663a4d05d075afe87ce9c472012ffae9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 51/82] fix: arithmetic functions accept the factorization of 1

---
 rosemary/number_theory/arithmetic_functions/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/arithmetic_functions/functions.py b/rosemary/number_theory/arithmetic_functions/functions.py
index 573442d..09b35a2 100644
--- a/rosemary/number_theory/arithmetic_functions/functions.py
+++ b/rosemary/number_theory/arithmetic_functions/functions.py
@@ -53,7 +53,7 @@ def _validate_input(n):
             message = "{}: Must have n > 0.".format(caller_name)
             raise ValueError(message)
         factorization = rosemary.number_theory.factorization.factorization.factor(n)
-    elif isinstance(n, list) and n[0][0] > 0:
+    elif isinstance(n, list) and (not n or n[0][0] > 0):
         factorization = n
     else:
         message = "{}: Input must be a positive integer or a factorization.".format(caller_name)
@@ -437,6 +437,8 @@ def carmichael_lambda(n):
         elif n <= 0:
             raise ValueError("carmichael_lambda: Must have n > 0.")
         n_factorization = rosemary.number_theory.factorization.factorization.factor(n)
+    elif isinstance(n, list) and (not n or n == [(1, 1)]):
+        return 1
     elif isinstance(n, list) and n[0][0] > 0:
         n_factorization = n
     else:
-- 
2.43.0


From 01cd2f9d843f2dd93a9f578bb22005633e496b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 52/82] fix: is_square and is_power accept the empty
 factorization of 1

---
 rosemary/number_theory/classification.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/classification.py b/rosemary/number_theory/classification.py
index 1c1e69f..626bc4c 100644
--- a/rosemary/number_theory/classification.py
+++ b/rosemary/number_theory/classification.py
@@ -88,7 +88,7 @@ def is_square(n):
 
     """
     if isinstance(n, list):
-        if n[0][0] == -1:
+        if n and n[0][0] == -1:
             return False
         n_factorization = n[:]
         sqrt = 1
@@ -177,7 +177,7 @@ def is_power(n, k=None, detect_only=False):
         raise ValueError("is_power: Must have k >= 1.")
 
     if isinstance(n, list):
-        if n[0][0] == -1:
+        if n and n[0][0] == -1:
             raise ValueError("is_power: Must have n >= 1.")
         n_factorization = n[:]
 
@@ -191,7 +191,7 @@ def is_power(n, k=None, detect_only=False):
             return (kth_root, k)
         else:
             exponents = [e for (p, e) in n_factorization]
-            d = gcd_list(exponents)
+            d = gcd_list(exponents) if exponents else 1
             if d == 1:
                 return False
             else:
-- 
2.43.0


From 0f35e96e44ff14c63d2f592834693c2a0a7faba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 53/82] fix: inverse_phi does not change the dictionary it
 iterates over

---
 .../number_theory/arithmetic_functions/inverse_functions.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index f914190..46d7f5f 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -112,7 +112,7 @@ def inverse_phi(n):
             if n % a == 0:
                 phi_cache[a] += [pk]
 
-            for b in phi_cache.keys():
+            for b in list(phi_cache.keys()):
                 if a*b > n:
                     continue
                 for x in phi_cache[b]:
-- 
2.43.0


From eaa5a51d99a816ebabc52cd3324cdff62cbff37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 54/82] fix: inverse_phi(1) includes 1

---
 .../number_theory/arithmetic_functions/inverse_functions.py    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index 46d7f5f..ad490c8 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -101,6 +101,9 @@ def euler_phi_inverse(n):
 
 
 def inverse_phi(n):
+    if n == 1:
+        return [1, 2]
+
     prime_list = [a + 1 for a in factor.divisors(n) if primality.is_prime(a + 1)]
     phi_cache = defaultdict(list)
 
-- 
2.43.0


From 0e0f20c9863e35b1c1e2fb566dd7aab1faf82a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 55/82] fix: euler_phi_inverse accepts the empty factorization
 of 1

---
 .../number_theory/arithmetic_functions/inverse_functions.py     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index ad490c8..7146e20 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -51,6 +51,8 @@ def euler_phi_inverse(n):
         elif n <= 0:
             raise ValueError("euler_phi_inverse: Must have n > 0.")
         n_factorization = factor.factor(n)
+    elif isinstance(n, list) and not n:
+        return [1, 2]
     elif isinstance(n, list) and n[0][0] > 0:
         n_factorization = n
         n = factor.factor_back(n_factorization)
-- 
2.43.0


From 091f17d3b6402b0280f5324771a8ec2ad231260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 56/82] fix: multiplicative_order: the order modulo 1 is 1

---
 rosemary/number_theory/zn_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 7e7d5c2..9866dc6 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -723,7 +723,7 @@ def multiplicative_order(
 
     # Guaranteed to exist since (a, n) = 1
     for d in phi_divisors:
-        if pow(a, d, n) == 1:
+        if pow(a, d, n) == 1 % n:
             return d
 
 
-- 
2.43.0


From 75125537f24abe207ca8d1f357583246a58ecd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 57/82] fix: sqrts_mod_n: handle the modulus 1

---
 rosemary/number_theory/zn_arithmetic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 9866dc6..fc977e6 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -489,7 +489,10 @@ def sqrts_mod_n(a, n, n_factorization=None):
         congruences.append(pairs)
         moduli.append(pk)
 
-    if len(congruences) == 1:
+    if not congruences:
+        # Every integer is a solution modulo n = 1.
+        values = [0]
+    elif len(congruences) == 1:
         values = [r for (r, _) in congruences[0]]
     else:
         preconditioning_data = crt_preconditioning_data(moduli)
-- 
2.43.0


From c38c005c67749a4edad655dd04a88b989e156b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 58/82] fix: quadratic_congruence: a zero leading coefficient
 leaves a linear congruence

---
 rosemary/number_theory/zn_arithmetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index fc977e6..1ca6a68 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -820,6 +820,9 @@ def quadratic_congruence(coeff_list, n, n_factorization=None):
         n_factorization = factor.factor(n)
 
     (a, b, c) = coeff_list
+    if a == 0 and n > 1:
+        return linear_congruence(b, -c, n)
+
     discriminant = b*b - 4*a*c
     all_roots = []
 
-- 
2.43.0


From edef13be3427f47433bb8efcea613fd198b7d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 59/82] fix: sqrts_mod_p: reduce the power of the nonresidue
 modulo p

---
 rosemary/number_theory/zn_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/zn_arithmetic.py b/rosemary/number_theory/zn_arithmetic.py
index 1ca6a68..a57822e 100644
--- a/rosemary/number_theory/zn_arithmetic.py
+++ b/rosemary/number_theory/zn_arithmetic.py
@@ -329,7 +329,7 @@ def sqrts_mod_p(a, p):
         m = 0
 
         for i in range(s):
-            if pow(A*D**m, 2**(s - 1 - i), p) == p - 1:
+            if pow(A*pow(D, m, p), 2**(s - 1 - i), p) == p - 1:
                 m += 2**i
 
         x = pow(a, (t + 1)//2, p)*pow(D, m//2, p) % p
-- 
2.43.0


From 88b17b17c5bdf61133c4e0ad06a762ed2f2d76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 60/82] fix: pell_minimal_positive_solutions: classes
 containing a solution with x = 0 or y = 0

---
 rosemary/number_theory/diophantine_equations/pell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index a30eb0a..47723d7 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -272,7 +272,7 @@ def pell_minimal_positive_solutions(D, N):
     for r in residues:
         for x in range(r, B, D):
             y = is_square((x*x - N) // D)
-            if y > 0 and y is not False:
+            if y is not False:
                 if (-x*x - D*y*y) % N == 0 and 2*x*y % N == 0:
                     fundamental_solutions.append((x, y))
                 else:
@@ -288,6 +288,9 @@ def pell_minimal_positive_solutions(D, N):
             else:
                 (p, q) = (x, y)
             p, q = p*u + q*v*D, p*v + q*u
+        elif x == 0 or y == 0:
+            # Not a positive solution; the next one in its class is.
+            p, q = x*u + y*v*D, x*v + y*u
         else:
             (p, q) = (x, y)
         minimal_positive_solutions.append((p, q))
-- 
2.43.0


From e9e657a1143a2364d7c557bc0173a459eac8d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 61/82] fix: pell_minimal_positive_solutions: exact search
 bound

---
 rosemary/number_theory/diophantine_equations/pell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 47723d7..c956878 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -1,5 +1,6 @@
 from rosemary.number_theory.classification import is_square
 from rosemary.number_theory.continued_fractions import QuadraticIrrational
+from rosemary.number_theory.core import integer_sqrt
 from rosemary.number_theory.zn_arithmetic import sqrts_mod_n
 
 
@@ -250,10 +251,10 @@ def pell_minimal_positive_solutions(D, N):
 
     if N > 0:
         # See Theorem 7.1 in [2]
-        B = int(((u + 1)*N / 2.0)**(0.5)) + 1
+        B = integer_sqrt((u + 1)*N // 2) + 1
     else:
         # See Theorem 7.2 in [2]
-        B = int(((u - 1)*(-N) / 2.0)**(0.5)) + 1
+        B = integer_sqrt((u - 1)*(-N) // 2) + 1
 
     # We can proceed in two different ways at this point:
     # 1) We can check all values of y in the range described in Theorems
-- 
2.43.0


From f73ee00fed74a6472ce50c63a13574bc1cd2c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 62/82] fix: PellEquation.resolvent_solution: use the
 equation's own D and N

---
 rosemary/number_theory/diophantine_equations/pell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index c956878..9c4eefe 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -75,6 +75,7 @@ class PellEquation(object):
         ...
         ValueError: pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).
         """
+        D, n = self.D, self.N
         if D <= 0 or is_square(D) or n not in (1, -1):
             raise ValueError("pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).")
 
-- 
2.43.0


From ff1c60ebadb7905adb0b4d65f01774afaebf1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 63/82] fix: pell_small: check the documented condition on N,
 do not print

---
 rosemary/number_theory/diophantine_equations/pell.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 9c4eefe..a1acd1b 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -167,14 +167,13 @@ def pell_fundamental_solution(D, n=1):
 
 
 def pell_small(D, N):
-    if D <= 0 or is_square(D) or D*D <= N:
+    if D <= 0 or is_square(D) or N*N >= D:
         raise ValueError("pell_small: Must have D > 0 not a perfect square and N < sqrt(D)")
 
     contfrac = QuadraticIrrational(D)
 
     # Otherwise, solutions always exist for D not a perfect square.
     for (x, y) in contfrac.convergents():
-        print (x, y)
         if x*x - D*y*y == N:
             yield (x, y)
 
-- 
2.43.0


From 8b20665953318f428b9c44dcbb3c5e68a4920663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 64/82] fix: QuadraticIrrational: take the true floor when the
 denominator is negative

---
 rosemary/number_theory/continued_fractions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index 4f09d9b..a99805e 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -66,7 +66,8 @@ class QuadraticIrrational(object):
         partial_quotients = []
 
         for i in itertools.count(1):
-            a = (P + r)//Q
+            # The floor of (P + sqrt(D))/Q, where r < sqrt(D) < r + 1.
+            a = (P + r)//Q if Q > 0 else (P + r + 1)//Q
             P = a*Q - P
             Q = (D - P*P)//Q
             partial_quotients.append(a)
-- 
2.43.0


From b08d2a5b72a5e4d8cbc16916a809c15d5694189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 65/82] fix: QuadraticIrrational: show the offset in the string
 form

---
 rosemary/number_theory/continued_fractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index a99805e..32c6352 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -30,7 +30,7 @@ class QuadraticIrrational(object):
                 s = "sqrt({})/{}".format(self.d, self.q)
         else:
             if self.q == 1:
-                s = "{} + sqrt({})".format(self.q, self.d)
+                s = "{} + sqrt({})".format(self.p, self.d)
             else:
                 s = "({} + sqrt({}))/{}".format(self.p, self.d, self.q)
 
-- 
2.43.0


From 3a6e6e57cc408a02d2c1cb2585c35585235a52ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 66/82] fix: QuadraticIrrational: seed the cycle detection with
 the scaled state

---
 rosemary/number_theory/continued_fractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/continued_fractions.py b/rosemary/number_theory/continued_fractions.py
index 32c6352..b1a09d7 100644
--- a/rosemary/number_theory/continued_fractions.py
+++ b/rosemary/number_theory/continued_fractions.py
@@ -62,7 +62,7 @@ class QuadraticIrrational(object):
             D = q*q*d
             r = integer_sqrt(D)
 
-        pq_pairs = {(p, q): 0}
+        pq_pairs = {(P, Q): 0}
         partial_quotients = []
 
         for i in itertools.count(1):
-- 
2.43.0


From c612b1515c147aa5273c0b75f508e3590b1e4d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 67/82] fix: largest_divisor: call the factoring function,
 combine only divisors

---
 rosemary/number_theory/misc.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 8342082..745d8bf 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -1,6 +1,6 @@
 # Miscellaneous number theoretic functions
 
-import rosemary.number_theory.factorization
+import rosemary.number_theory.factorization.factorization as factorization
 
 from rosemary.number_theory.prime_list import _PRIME_LIST
 from fractions import Fraction
@@ -31,25 +31,17 @@ def largest_divisor(n, b):
     if n % target == 0:
         return target
 
-    n_factorization = rosemary.number_theory.factorization.factor(n)
-    L = []
-    for (p, e) in n_factorization:
-        pp = p
-        for _ in range(e):
-            L.append(pp)
-            pp *= p
+    n_factorization = factorization.factor(n)
+    k = len(n_factorization) // 2
 
-    k = len(L) // 2
-    P1 = L[:k]
-    P2 = L[k:]
-
-    # Form all of the products in each half
+    # Form all of the products in each half of the primes, so that any product
+    # of one element from each half is a divisor of n.
     prods1 = [1]
-    for p in P1:
-        prods1 += [x*p for x in prods1 if x*p <= b and n % (x*p) == 0]
+    for (p, e) in n_factorization[:k]:
+        prods1 = [x*p**i for x in prods1 for i in range(e + 1) if x*p**i <= b]
     prods2 = [1]
-    for p in P2:
-        prods2 += [x*p for x in prods2 if x*p <= b and n % (x*p) == 0]
+    for (p, e) in n_factorization[k:]:
+        prods2 = [x*p**i for x in prods2 for i in range(e + 1) if x*p**i <= b]
 
     prods1.sort()
     prods2.sort(reverse=True)
-- 
2.43.0


From 14247a703a9e6a355fd58e3eb98212b470f29496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 68/82] fix: bernoulli_list: the list for n = 0

---
 rosemary/number_theory/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 745d8bf..7eaf6df 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -152,7 +152,8 @@ def bernoulli_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = Fraction(-1, 2)
+    if n >= 1:
+        values[1] = Fraction(-1, 2)
 
     for m in range(2, n + 1, 2):
         total = 1
-- 
2.43.0


From ac28e1c4cd780dbbd18e46c89c3f67c938f2e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 69/82] fix: longest_ap: return every pair when no three terms
 are in progression

---
 rosemary/number_theory/arithmetic_progressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/arithmetic_progressions.py b/rosemary/number_theory/arithmetic_progressions.py
index f7bb392..d428b8a 100644
--- a/rosemary/number_theory/arithmetic_progressions.py
+++ b/rosemary/number_theory/arithmetic_progressions.py
@@ -70,8 +70,8 @@ def longest_ap(A):
         >>> longest_ap(p_list)
         [(199, 409, 619, 829, 1039, 1249, 1459, 1669, 1879, 2089)]
     """
-    L = {}
     n = len(A)
+    L = {(i, n - 1): 2 for i in range(n - 1)}
     longest = 2
 
     for j in range(n - 2, 0, -1):
-- 
2.43.0


From a79bf68fbcd87b8fd398b9f29c9e944402d4f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 70/82] fix: Polynomial: subtract scalars

---
 rosemary/algebra/polynomials/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 9bb53f2..6e4f2ea 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -150,7 +150,7 @@ class Polynomial(object):
             try:
                 parent_class = self.__class__
                 other_poly = parent_class(other, self.variable)
-                return self + other_poly
+                return self - other_poly
             except:
                 raise ValueError('Other cannot be coerced into a polynomial')
 
-- 
2.43.0


From a39fa9cf704a7ed4b301a8d3eab43ab72e6731b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 71/82] fix: power_jcp: powers of the zero polynomial

---
 rosemary/algebra/polynomials/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/algebra/polynomials/algorithms.py b/rosemary/algebra/polynomials/algorithms.py
index 83e6ae1..ecfc493 100644
--- a/rosemary/algebra/polynomials/algorithms.py
+++ b/rosemary/algebra/polynomials/algorithms.py
@@ -129,6 +129,9 @@ def power_jcp(A, k):
         >>> power_jcp(L, 2)
         [1, 6, 13, 12, 4]
     """
+    if not any(A):
+        return [0] if k > 0 else [1]
+
     shift = 0
     while A[shift] == 0:
         shift += 1
-- 
2.43.0


From 6bacad594eec32f286eeed8ba099d1d8082fb896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 72/82] fix: quo_rem: every quotient coefficient must be
 integral

---
 rosemary/algebra/polynomials/polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 6e4f2ea..06120a5 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -361,9 +361,9 @@ class Polynomial(object):
         lc = b[l - 1]
         r = a[0:k]
         q = [0] * (k - l + 1)
-        if a[k - 1] % lc != 0:
-            raise ValueError("Non-Integral Coefficients")
         for i in range(k - l, -1, -1):
+            if r[i + l - 1] % lc != 0:
+                raise ValueError("Non-Integral Coefficients")
             q[i] = r[i + l - 1] // lc
             for j in range(l):
                 r[i + j] -= q[i] * b[j]
-- 
2.43.0


From b675c283671c3181f54d4ecabacd0c01784f3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 73/82] fix: primitive_part of the zero polynomial

---
 rosemary/algebra/polynomials/polynomials.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 06120a5..dbc4b82 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -428,6 +428,8 @@ class PolyZZ(Polynomial):
         """
         coeffs = self._coefficients
         content = gcd_list(coeffs)
+        if content == 0:
+            return self.__class__([0], self.variable)
         if coeffs[-1] < 0:
             content *= -1
         parent_class = self.__class__
-- 
2.43.0


From c4c06ee67d9787c2068f9e23d80e8c6e9fb59cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 74/82] fix: Polynomial.gcd: subresultant bookkeeping

---
 rosemary/algebra/polynomials/polynomials.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index dbc4b82..c1694aa 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -386,24 +386,27 @@ class Polynomial(object):
         u = self.primitive_part()
         v = other.primitive_part()
         h = g = 1
-        dd = u.degree - v.degree
+        parent_class = self.__class__
 
-        if dd < 0:
+        if other == 0:
+            return d * u
+        if u.degree < v.degree:
             return other.gcd(self)
 
         while True:
+            dd = u.degree - v.degree
             (q, r) = u.pseudo_quo_rem(v)
             if r == 0:
                 return d * v.primitive_part()
             elif r.degree == 0:
-                return Polynomial([d])
+                return parent_class([d], self.variable)
             u = v
-            v = Polynomial([e // (g*h**dd) for e in r._coefficients])
+            v = parent_class([e // (g*h**dd) for e in r._coefficients], self.variable)
             g = u.lead_coeff
             if dd > 1:
                 h = g**dd // h**(dd - 1)
-            else:
-                h = h**(1 - dd) // g**(-dd)
+            elif dd == 1:
+                h = g
 
 
 class PolyZZ(Polynomial):
-- 
2.43.0


From 19cd0aaee8092b3c7f17d9a4bb51f37c51db59f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 75/82] fix: ps_power: keep integers for negative exponents

---
 rosemary/algebra/power_series/power_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/power_series/power_series.py b/rosemary/algebra/power_series/power_series.py
index dbb79a2..16097d2 100644
--- a/rosemary/algebra/power_series/power_series.py
+++ b/rosemary/algebra/power_series/power_series.py
@@ -65,7 +65,7 @@ def ps_power(A, k):
     n = len(A)
     P = [0] * n
     a0 = A[0]
-    P[0] = a0**k
+    P[0] = a0**k if k >= 0 else 1 // a0**(-k)
     for i in range(1, n):
         ss = 0
         for j in range(1, i + 1):
-- 
2.43.0


From 63aa8eb7a225c664fd2cbf2cc8bc56e298fb8dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 76/82] fix: Matrix: do not share rows

---
 rosemary/algebra/matrices/matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 25b6d00..5a3cb35 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -34,7 +34,7 @@ class Matrix(object):
             if isinstance(m, int):
                 entries = [[0]*m for _ in range(m)]
             else:
-                entries = list(m)
+                entries = [list(row) for row in m]
         elif isinstance(n, int):
             entries = [[0]*n for _ in range(m)]
 
@@ -313,7 +313,7 @@ class Matrix(object):
         if nrows != ncols:
             raise ValueError("Determinant only defined for square matrices.")
 
-        m = self.__entries
+        m = [list(row) for row in self.__entries]
 
         for k in range(ncols):
             pivot = m[k][k]
-- 
2.43.0


From 54ac5092a78602e1270b681eddc3f86ddf73250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 77/82] fix: Matrix.determinant: pivot search

---
 rosemary/algebra/matrices/matrices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 5a3cb35..b3e78ea 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -323,9 +323,9 @@ class Matrix(object):
                     if m[i][k] != 0:
                         break
 
-                # If no nonzero entry was found in column k, then the
-                # determinant is zero.
-                if i == ncols - 1:
+                else:
+                    # If no nonzero entry was found in column k, then the
+                    # determinant is zero.
                     return 0
                 # Othwerwise, we perform exchanges.
                 for j in range(k, ncols):
-- 
2.43.0


From 0cb50d02573592810d97baafcc66063b1fcaa41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 78/82] fix: Matrix: compare both shapes in sums and
 differences

---
 rosemary/algebra/matrices/matrices.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index b3e78ea..e13289d 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -102,8 +102,8 @@ class Matrix(object):
 
         self_ncols = self.__ncols
         self_nrows = self.__nrows
-        other_ncols = self.__ncols
-        other_nrows = self.__nrows
+        other_ncols = other.__ncols
+        other_nrows = other.__nrows
 
         if self_ncols != other_ncols or self_nrows != other_nrows:
             raise ValueError("Invalid dimensions for matrix addition")
@@ -163,6 +163,10 @@ class Matrix(object):
 
         ncols = self.__ncols
         nrows = self.__nrows
+
+        if ncols != other.__ncols or nrows != other.__nrows:
+            raise ValueError("Invalid dimensions for matrix subtraction")
+
         entries = list(self.__entries)
         other_entries = list(other.__entries)
         result = [[0]*ncols for _ in range(nrows)]
-- 
2.43.0


From 07932f1982437d01459fbc4ba34d109c47f4daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 79/82] fix: Matrix product: result shape

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index e13289d..c81f9c2 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -211,7 +211,7 @@ class Matrix(object):
             raise ValueError("Incompatible Matrix dimensions")
 
         other_entries = other.__entries
-        result = [[0]*nrows for _ in range(other_ncols)]
+        result = [[0]*other_ncols for _ in range(nrows)]
 
         for i in range(nrows):
             for j in range(other_ncols):
-- 
2.43.0


From 2a768932db84720ef2fd3e4405692c40458bf07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 80/82] fix: Matrix.__rmul__: multiply from the left

---
 rosemary/algebra/matrices/matrices.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index c81f9c2..215d242 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -243,23 +243,7 @@ class Matrix(object):
             except:
                 raise ValueError("Other cannot be coerced into a Matrix")
 
-        other_nrows = other.__nrows
-        other_ncols = other.__ncols
-
-        if other_ncols != nrows:
-            raise ValueError("Incompatible Matrix dimensions")
-
-        other_entries = other.__entries
-        result = [[0]*other_ncols for _ in range(nrows)]
-
-        for i in range(other_nrows):
-            for j in range(ncols):
-                total = 0
-                for k in range(other_ncols):
-                    total += entries[i][k]*other_entries[k][j]
-                result[i][j] = total
-
-        return parent_class(result)
+        return other*self
 
     def delete_col(self, idx):
         result = []
-- 
2.43.0


From 61ac80f80e6ab08e409de42a0e4346fd4e062b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 81/82] fix: end the minimum cost paths heuristic once all
 terminals are in the tree

---
 rosemary/graphs/algorithms/steiner_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/steiner_trees.py b/rosemary/graphs/algorithms/steiner_trees.py
index 667f976..60b13b6 100644
--- a/rosemary/graphs/algorithms/steiner_trees.py
+++ b/rosemary/graphs/algorithms/steiner_trees.py
@@ -204,7 +204,7 @@ def minimum_cost_paths_heuristic(graph, terminals):
         tree_vertices.add(root)
 
         # Repeat until the tree contains all terminals.
-        while terminal_set:
+        while not terminal_set <= tree_vertices:
             min_dist = inf
             # Find vertices u and v with minimal distance with v in the
             # tree and u a terminal not in the tree.
-- 
2.43.0


From 7561bf712030d55056edea754574f8d288e3697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 82/82] fix: exact densities in the knapsack branch and bound

---
 rosemary/combinatorics/optimization/knapsack.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rosemary/combinatorics/optimization/knapsack.py b/rosemary/combinatorics/optimization/knapsack.py
index b0b6a17..3a81ada 100644
--- a/rosemary/combinatorics/optimization/knapsack.py
+++ b/rosemary/combinatorics/optimization/knapsack.py
@@ -10,6 +10,7 @@ constraint \\sum_{i = 0}^{n - 1} w_i x_i <= M.
 
 import math
 import random
+from fractions import Fraction
 
 
 def depth_first(items, capacity):
@@ -93,7 +94,9 @@ def dynamic_programming(items, capacity):
 
 
 def branch_and_bound_depth_first(items, capacity):
-    unit_cost = [(float(v)/float(w), v, w, i) for (i, (v, w)) in enumerate(items)]
+    # The densities are exact, since the bound below must not be rounded down. An
+    # item without weight is taken before all others.
+    unit_cost = [(Fraction(v)/Fraction(w) if w else math.inf, v, w, i) for (i, (v, w)) in enumerate(items)]
     unit_cost.sort(reverse=True)
     num_items = len(items)
     best = [0, []]
@@ -106,10 +109,10 @@ def branch_and_bound_depth_first(items, capacity):
         triples = (unit_cost[i] for i in range(idx, num_items))
         for (u, v, w, _) in triples:
             if weight + w > target:
-                break
+                return value + u*(target - weight)
             weight += w
             value += v
-        return value + u*(target - weight)
+        return value
 
     def backtrack(idx, current_value, current_weight, used):
         if current_weight <= capacity:
-- 
2.43.0

