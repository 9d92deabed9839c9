From fe33b2ffe8d877831af4b0297e47275d8f2995cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 01/70] fix: reject compositions leaving two wires in one slot
 also when their representations differ

---
 mrmustard/physics/wires.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 8b5d76c..d964a26 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -557,9 +557,16 @@ class Wires:
         If there are overlapping wires (same mode, is_ket, is_out), raises a ValueError.
         Note that the wires are not reindexed nor copied. Use with caution.
         """
-        if ovlp_classical := self._classical_wires & other._classical_wires:
+        # wires overlap when they occupy the same slot, regardless of their representation
+        classical_slots = {(w.mode, w.is_out) for w in self._classical_wires}
+        if ovlp_classical := [
+            w for w in other._classical_wires if (w.mode, w.is_out) in classical_slots
+        ]:
             raise ValueError(f"Overlapping classical wires {ovlp_classical}.")
-        if ovlp_quantum := self._quantum_wires & other._quantum_wires:
+        quantum_slots = {(w.mode, w.is_out, w.is_ket) for w in self._quantum_wires}
+        if ovlp_quantum := [
+            w for w in other._quantum_wires if (w.mode, w.is_out, w.is_ket) in quantum_slots
+        ]:
             raise ValueError(f"Overlapping quantum wires {ovlp_quantum}.")
         return Wires.from_wires(
             quantum=self._quantum_wires | other._quantum_wires,
-- 
2.43.0


From 4b585fb4764af237d92a7b515104c08dd05a3d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 02/70] fix: compare quantum and classical wires without
 AttributeError

---
 mrmustard/physics/wires.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index d964a26..f61fd96 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -106,6 +106,8 @@ class QuantumWire:
         return self.mode + 10_000 * (1 - 2 * self.is_out) - 100_000 * (1 - 2 * self.is_ket)
 
     def __eq__(self, other: QuantumWire) -> bool:
+        if not isinstance(other, QuantumWire):
+            return NotImplemented
         return (
             self.mode == other.mode
             and self.is_out == other.is_out
@@ -154,6 +156,8 @@ class ClassicalWire:
         return 1000_000 + self.mode + 10_000 * (1 - 2 * self.is_out)
 
     def __eq__(self, other: ClassicalWire) -> bool:
+        if not isinstance(other, ClassicalWire):
+            return NotImplemented
         return self.mode == other.mode and self.is_out == other.is_out and self.repr == other.repr
 
     def __hash__(self) -> int:
-- 
2.43.0


From 03a966876bdf6cb89543baec236fc361587214a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 03/70] fix: Channel.from_XY accepts a displacement vector and
 applies it with the right sign

---
 mrmustard/physics/triples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/triples.py b/mrmustard/physics/triples.py
index 9cc45cd..f9ea984 100644
--- a/mrmustard/physics/triples.py
+++ b/mrmustard/physics/triples.py
@@ -949,7 +949,7 @@ def XY_to_channel_Abc(
     """
     m = Y.shape[-1] // 2
     # considering no displacement if d is None
-    d = d if d else math.zeros(2 * m)
+    d = math.zeros(2 * m) if d is None else d
 
     if X.shape != Y.shape:
         raise ValueError(
@@ -997,7 +997,7 @@ def XY_to_channel_Abc(
     A = Xm @ R @ xi_inv_in_blocks @ math.conj(R_transpose)
     xi_inv_d = math.einsum("...ij,...j->...i", xi_inv, d)
     x_xi_inv_d = math.einsum("...ij,...jk,...k->...i", X_transpose, xi_inv, d)
-    temp = math.concat([xi_inv_d, x_xi_inv_d], -1)
+    temp = math.concat([xi_inv_d, -x_xi_inv_d], -1)
     b = 1 / math.sqrt(complex(settings.HBAR)) * math.einsum("...ij,...j->...i", math.conj(R), temp)
     sandwiched_xi_inv = math.einsum("...i,...ij,...j->...", d, xi_inv, d)
     c = math.exp(-0.5 / settings.HBAR * sandwiched_xi_inv) / math.sqrt(math.det(xi))
-- 
2.43.0


From a35f68c34b431c31959197d386456bcf601d2754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 04/70] fix: zero the preallocated output buffer before the
 vanilla Fock recurrence

---
 mrmustard/math/lattice/strategies/vanilla/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mrmustard/math/lattice/strategies/vanilla/core.py b/mrmustard/math/lattice/strategies/vanilla/core.py
index d483282..8ef955a 100644
--- a/mrmustard/math/lattice/strategies/vanilla/core.py
+++ b/mrmustard/math/lattice/strategies/vanilla/core.py
@@ -70,7 +70,11 @@ def vanilla_numba(
         strides[i - 1] = strides[i] * shape_arr[i]
 
     # init flat output tensor
-    G = out.ravel() if out is not None else np.zeros(np.prod(shape_arr), dtype=np.complex128)
+    if out is not None:
+        G = out.ravel()
+        G[:] = 0  # stale content (e.g. nan) must not enter the recursion
+    else:
+        G = np.zeros(np.prod(shape_arr), dtype=np.complex128)
 
     # initialize the n-dim index
     nd_index = np.ndindex(shape)
@@ -170,7 +174,11 @@ def stable_numba(
         strides[i - 1] = strides[i] * shape[i]
 
     # initialize flat output tensor
-    G = out.ravel() if out is not None else np.zeros(np.prod(shape_arr), dtype=np.complex128)
+    if out is not None:
+        G = out.ravel()
+        G[:] = 0  # stale content (e.g. nan) must not enter the recursion
+    else:
+        G = np.zeros(np.prod(shape_arr), dtype=np.complex128)
 
     # initialize flat index and n-dim iterator
     flat_index = 0
-- 
2.43.0


From 51647d7c2698b431fae1a00de1d0853a01f6f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 05/70] fix: default global cutoff of the binomial strategies
 covers the whole shape; make binomial_numba compile

---
 mrmustard/math/lattice/strategies/binomial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrmustard/math/lattice/strategies/binomial.py b/mrmustard/math/lattice/strategies/binomial.py
index 87a7371..b4caf03 100644
--- a/mrmustard/math/lattice/strategies/binomial.py
+++ b/mrmustard/math/lattice/strategies/binomial.py
@@ -96,7 +96,7 @@ def binomial_dict(
         dict[tuple[int, ...], complex]: Fock representation of the Gaussian tensor.
     """
     if global_cutoff is None:
-        global_cutoff = sum(local_cutoffs) - len(local_cutoffs)
+        global_cutoff = sum(local_cutoffs) - len(local_cutoffs) + 1
 
     # init numba output dict
     G = typed.Dict.empty(
@@ -137,7 +137,7 @@ def binomial_numba(
 ) -> ComplexTensor:  # pragma: no cover
     r"""Binomial strategy (fill by weight), fully numba version."""
     if global_cutoff is None:
-        global_cutoff = sum(local_cutoffs) - len(local_cutoffs)
+        global_cutoff = sum(local_cutoffs) - len(local_cutoffs) + 1
 
     # init output tensor
     G = np.zeros(local_cutoffs, dtype=np.complex128)
@@ -148,9 +148,9 @@ def binomial_numba(
 
     # iterate over all other indices in parallel and stop if norm is large enough
     for photons in range(1, global_cutoff):
-        try:
+        if (local_cutoffs, photons) in FP:
             indices = FP[(local_cutoffs, photons)]
-        except KeyError:
+        else:
             indices = paths.binomial_subspace_basis(local_cutoffs, photons)
             FP[(local_cutoffs, photons)] = indices
         G, prob_subspace = steps.binomial_step(G, A, b, indices)
-- 
2.43.0


From e79ba1109cbc87828e6304fc5872cabc4e2bc327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 06/70] fix: iterate over all weights in the one-leftover-mode
 recurrence when the output cutoff is small

---
 mrmustard/math/lattice/strategies/fast_diagonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/math/lattice/strategies/fast_diagonal.py b/mrmustard/math/lattice/strategies/fast_diagonal.py
index a40108e..385f63a 100644
--- a/mrmustard/math/lattice/strategies/fast_diagonal.py
+++ b/mrmustard/math/lattice/strategies/fast_diagonal.py
@@ -65,7 +65,7 @@ def fast_diagonal(
     buffer_2 = {}
     buffer_1 = {}
     buffer_0 = {(0, 0) * (L - 1): output[(0,) * (L - 1)]}
-    for weight in range(1, 2 * output_cutoff + 2 * np.sum(pnr_cutoffs) - L):
+    for weight in range(1, 2 * sum(pnr_cutoffs) + 1):
         buffer_2, buffer_1, buffer_0 = buffer_1, buffer_0, buffer_2
         buffer_0.clear()
         for w in enumerate_diagonal_coords(weight, pnr_cutoffs):
-- 
2.43.0


From 5c8e52d3d7d4a9d73433c7d23a761e937033db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 07/70] fix: beamsplitter Fock arrays of non-square shapes
 (vanilla and schwinger methods)

---
 mrmustard/math/lattice/strategies/beamsplitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/math/lattice/strategies/beamsplitter.py b/mrmustard/math/lattice/strategies/beamsplitter.py
index a291a67..f094958 100644
--- a/mrmustard/math/lattice/strategies/beamsplitter.py
+++ b/mrmustard/math/lattice/strategies/beamsplitter.py
@@ -69,7 +69,7 @@ def beamsplitter(
 
     # rank 3
     for m in range(M):
-        for n in range(N - m):
+        for n in range(min(N, P - m)):
             p = m + n
             if 0 < p < P:
                 G[m, n, p, 0] = (
@@ -282,7 +282,7 @@ def beamsplitter_schwinger(shape, theta, phi, max_N=None):
         E, V = np.linalg.eig(theta * iJy)
         block = V @ np.diag(np.exp(E)) @ np.conj(V.T)
         # insert the elements of the block into the output tensor
-        for i in range(max(0, N + 1 - c1), min(N + 1, c1)):
+        for i in range(max(0, N + 1 - c1), min(N + 1, c2)):
             for j in range(max(0, N + 1 - c1), min(N + 1, c2)):
                 U[N - i, i, N - j, j] = block[i, j]
     return U
-- 
2.43.0


From 2fc247942c662b0b3bf5d988b53c142455432bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 08/70] fix: ArrayAnsatz.reduce when some indices grow and
 others shrink

---
 mrmustard/physics/ansatz/array_ansatz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index bd81263..45eb766 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -263,9 +263,10 @@ class ArrayAnsatz(Ansatz):
             )
             padded = math.pad(
                 self.array,
-                [(0, 0)] * self.batch_dims + [(0, s - t) for s, t in zip(shape, self.core_shape)],
+                [(0, 0)] * self.batch_dims
+                + [(0, max(0, s - t)) for s, t in zip(shape, self.core_shape)],
             )
-            return ArrayAnsatz(padded, self.batch_dims)
+            return ArrayAnsatz(padded[(..., *tuple(slice(0, s) for s in shape))], self.batch_dims)
 
         return ArrayAnsatz(self.array[(..., *tuple(slice(0, s) for s in shape))], self.batch_dims)
 
-- 
2.43.0


From c85dd32648273dadba11092148c46b3ab7a2bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 09/70] fix: path optimiser only contracts edges whose nodes
 have no component in between

---
 mrmustard/path/branch_and_bound.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mrmustard/path/branch_and_bound.py b/mrmustard/path/branch_and_bound.py
index dca86d7..fb6f73b 100644
--- a/mrmustard/path/branch_and_bound.py
+++ b/mrmustard/path/branch_and_bound.py
@@ -348,6 +348,20 @@ def contract(graph: Graph, edge: Edge, debug: int = 0) -> Graph:
     return new_graph
 
 
+def is_contractible(graph: Graph, edge: Edge) -> bool:
+    r"""
+    Returns whether the two nodes of an edge can be contracted now, i.e. whether no other component
+    sits between them. Otherwise merging them would leave that component both before and after
+    the merged node.
+
+    Args:
+        graph (Graph): A graph.
+        edge (tuple[int, int]): An edge of the graph.
+    """
+    A, B = edge
+    return not any(nx.has_path(graph, n, B) for n in graph.successors(A) if n != B)
+
+
 def children(graph: Graph, cost_bound: int) -> set[Graph]:
     r"""
     Returns a set of graphs obtained by contracting each edge.
@@ -366,7 +380,7 @@ def children(graph: Graph, cost_bound: int) -> set[Graph]:
     """
     children_set = set()
     for edge in sorted(graph.out_edges, key=lambda e: graph.out_edges[e]["cost"]):
-        if graph.cost + graph.edges[edge]["cost"] < cost_bound:
+        if graph.cost + graph.edges[edge]["cost"] < cost_bound and is_contractible(graph, edge):
             children_set.add(contract(graph, edge))
     return children_set
 
@@ -426,7 +440,7 @@ def random_solution(graph: Graph) -> Graph:
         Graph: The contracted graph
     """
     while graph.number_of_edges() > 0:
-        edge = random.choice(list(graph.edges))
+        edge = random.choice([e for e in graph.edges if is_contractible(graph, e)])
         graph = contract(graph, edge)
     return graph
 
@@ -453,7 +467,7 @@ def reduce_first(graph: Graph, code: str) -> tuple[Graph, Edge | bool]:
             for edge in list(graph.out_edges(node)) + list(graph.in_edges(node)):
                 A = graph.nodes[edge[0]]["component"]
                 B = graph.nodes[edge[1]]["component"]
-                if A.ansatz[0] == tA and B.ansatz[0] == tB:
+                if A.ansatz[0] == tA and B.ansatz[0] == tB and is_contractible(graph, edge):
                     graph = contract(graph, edge)
                     return graph, edge
     return graph, False
-- 
2.43.0


From b886214ba9031a2bfb3b7c866278aedf3138060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 10/70] fix: contraction costs of many-index components
 overflowed 64-bit integers

---
 mrmustard/path/branch_and_bound.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mrmustard/path/branch_and_bound.py b/mrmustard/path/branch_and_bound.py
index fb6f73b..d700b6d 100644
--- a/mrmustard/path/branch_and_bound.py
+++ b/mrmustard/path/branch_and_bound.py
@@ -23,7 +23,7 @@ import operator
 import random
 from collections.abc import Generator
 from copy import deepcopy
-from math import factorial
+from math import factorial, prod
 from queue import PriorityQueue
 
 import networkx as nx
@@ -115,15 +115,18 @@ class GraphComponent:
                 + m * m * m  # determinant of M
             )
         else:  # otherwise need to use fock cost
-            prod_A = np.prod([s for i, s in enumerate(self.shape) if i not in idxA])
-            prod_B = np.prod([s for i, s in enumerate(other.shape) if i not in idxB])
-            prod_contracted = np.prod(
-                [min(self.shape[i], other.shape[j]) for i, j in zip(idxA, idxB)],
+            # python integers: products of many shapes overflow 64 bits
+            prod_A = prod(int(s) for i, s in enumerate(self.shape) if i not in idxA)
+            prod_B = prod(int(s) for i, s in enumerate(other.shape) if i not in idxB)
+            prod_contracted = prod(
+                int(min(self.shape[i], other.shape[j])) for i, j in zip(idxA, idxB)
             )
             cost = (
                 prod_A * prod_B * prod_contracted  # matmul
-                + np.prod(self.shape) * (self.ansatz == "PolyExpAnsatz")  # conversion
-                + np.prod(other.shape) * (other.ansatz == "PolyExpAnsatz")  # conversion
+                + prod(int(s) for s in self.shape)
+                * (self.ansatz == "PolyExpAnsatz")  # conversion
+                + prod(int(s) for s in other.shape)
+                * (other.ansatz == "PolyExpAnsatz")  # conversion
             )
         return int(cost)
 
-- 
2.43.0


From 4e5bc1d82b6d16554c1584c53ae948ac8662f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 11/70] fix: shape optimisation only matches wires that are
 actually connected

---
 mrmustard/path/branch_and_bound.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/mrmustard/path/branch_and_bound.py b/mrmustard/path/branch_and_bound.py
index d700b6d..ffc05dc 100644
--- a/mrmustard/path/branch_and_bound.py
+++ b/mrmustard/path/branch_and_bound.py
@@ -242,18 +242,23 @@ def optimize_fock_shapes(graph: Graph, iteration: int, verbose: bool) -> Graph:
         verbose: Whether to print the progress.
     """
     hash_before = hash(graph)
-    for A, B in graph.edges:
+    for A in graph.nodes:
         wires_A = graph.nodes[A]["component"].wires
-        wires_B = graph.nodes[B]["component"].wires
-        idx_A, idx_B = wires_A.contracted_indices(wires_B)
-        # ensure at idx_i and idx_j the shapes are the minimum
-        for i, j in zip(idx_A, idx_B):
-            value = min(
-                graph.nodes[A]["component"].shape[i],
-                graph.nodes[B]["component"].shape[j],
-            )
-            graph.nodes[A]["component"].shape[i] = value
-            graph.nodes[B]["component"].shape[j] = value
+        connected = set()  # wires of A that are already connected to an earlier component
+        for B in sorted(graph.successors(A)):
+            wires_B = graph.nodes[B]["component"].wires
+            idx_A, idx_B = wires_A.contracted_indices(wires_B)
+            # ensure at idx_i and idx_j the shapes are the minimum
+            for i, j in zip(idx_A, idx_B):
+                if i in connected:
+                    continue
+                connected.add(i)
+                value = min(
+                    graph.nodes[A]["component"].shape[i],
+                    graph.nodes[B]["component"].shape[j],
+                )
+                graph.nodes[A]["component"].shape[i] = value
+                graph.nodes[B]["component"].shape[j] = value
 
     for component in graph.components():
         if component.name == "BSgate":
-- 
2.43.0


From e7982f00c2d1f3f06d2492adbfbfa52bcdfebcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 12/70] fix: standard order of wires for mode labels of 20000
 and above

---
 mrmustard/physics/wires.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index f61fd96..2d13f9a 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -98,12 +98,12 @@ class QuantumWire:
             id=self.id if not new_id else randint(0, 2**32 - 1),
         )
 
-    def _order(self) -> int:
+    def _order(self) -> tuple[int, ...]:
         """
         Artificial ordering for sorting quantum wires.
         Order achieved is by bra/ket, then out/in, then mode.
         """
-        return self.mode + 10_000 * (1 - 2 * self.is_out) - 100_000 * (1 - 2 * self.is_ket)
+        return (0, int(self.is_ket), int(not self.is_out), self.mode)
 
     def __eq__(self, other: QuantumWire) -> bool:
         if not isinstance(other, QuantumWire):
@@ -148,12 +148,12 @@ class ClassicalWire:
             id=self.id if not new_id else randint(0, 2**32 - 1),
         )
 
-    def _order(self) -> int:
+    def _order(self) -> tuple[int, ...]:
         """
         Artificial ordering for sorting classical wires.
         Order is by out/in, then mode. Classical wires always come after quantum wires.
         """
-        return 1000_000 + self.mode + 10_000 * (1 - 2 * self.is_out)
+        return (1, 0, int(not self.is_out), self.mode)
 
     def __eq__(self, other: ClassicalWire) -> bool:
         if not isinstance(other, ClassicalWire):
-- 
2.43.0


From b0cc416bf4951178d9e8eca7b69cd07d071581a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 13/70] fix: pair the bra and ket indices of the same mode when
 tracing out

---
 mrmustard/lab/circuit_components_utils/trace_out.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index ab526e0..d0c09d8 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -102,8 +102,9 @@ class TraceOut(CircuitComponent):
             ansatz = ansatz1.contract(ansatz2, batch + core1, batch + core2, batch + core_out)
             wires, _ = (other.wires.adjoint @ other.wires)[0] @ self.wires
         else:
-            idx_zconj = [bra[m].indices[0] for m in self.wires.modes & bra.modes]
-            idx_z = [ket[m].indices[0] for m in self.wires.modes & ket.modes]
+            # sets are sorted so that the bra and ket indices of a mode are always paired
+            idx_zconj = [bra[m].indices[0] for m in sorted(self.wires.modes & bra.modes)]
+            idx_z = [ket[m].indices[0] for m in sorted(self.wires.modes & ket.modes)]
             ansatz = other.ansatz.trace(idx_z, idx_zconj)
             wires, _ = other.wires @ self.wires
 
-- 
2.43.0


From 551961b050c95157f8d1879f7d4c39f10db22f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 14/70] fix: tracing modes a component does not output leaves
 the trace open; a traced unitary is not a Unitary

---
 .../lab/circuit_components_utils/trace_out.py  | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index d0c09d8..dd39615 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -81,6 +81,17 @@ class TraceOut(CircuitComponent):
         So we write two shortcuts here, and ``__rrshift__`` will be called first if
         present in the ``__rshift__`` method of the first object (``other`` here).
         """
+        missing = self.wires.modes - other.wires.output.modes
+        if missing:  # the trace stays open on the modes that ``other`` does not output
+            found = self.wires.modes - missing
+            traced = other >> TraceOut(tuple(sorted(found))) if found else other
+            still_open = TraceOut(tuple(sorted(missing)))
+            if not isinstance(traced, CircuitComponent):
+                return still_open * traced
+            if not (traced.wires.bra and traced.wires.ket):
+                traced = traced.adjoint.contract(traced, "zip")
+            return traced.contract(still_open)
+
         ket = other.wires.output.ket
         bra = other.wires.output.bra
         if len(self.wires) == 0:
@@ -108,5 +119,10 @@ class TraceOut(CircuitComponent):
             ansatz = other.ansatz.trace(idx_z, idx_zconj)
             wires, _ = other.wires @ self.wires
 
-        cpt = other._from_attributes(ansatz, wires)
+        # only a traced state stays in its class, e.g. a traced unitary is not a ``Unitary``
+        cpt = (
+            CircuitComponent(ansatz, wires)
+            if wires.input
+            else other._from_attributes(ansatz, wires)
+        )
         return cpt.ansatz.scalar if len(cpt.wires) == 0 else cpt
-- 
2.43.0


From fa042048637a1ec2814e7bb86e8a2bbcacdd3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 15/70] fix: PolyExpAnsatz.contract pairs the variables that
 share a label

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 9f5978b..57e5607 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -378,8 +378,8 @@ class PolyExpAnsatz(Ansatz):
 
         # --- Prepare for complex_gaussian_integral_2 ---  # TODO: finish fixing this
         contracted_core = set(core1) & set(core2)
-        idx1_cv = sorted(core1.index(label) for label in contracted_core)
-        idx2_cv = sorted(core2.index(label) for label in contracted_core)
+        idx1_cv = [i for i, label in enumerate(core1) if label in contracted_core]
+        idx2_cv = [core2.index(core1[i]) for i in idx1_cv]
 
         ls_labels = {f"__ls{i}" for i, ls in [(1, ls1), (2, ls2)] if ls}
         unique_batch_labels = set(batch1) | set(batch2) | ls_labels
-- 
2.43.0


From b6f08a585c963743427ad7d030e916d8bcd8ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 16/70] fix: contraction and product of two superpositions with
 batch or derived variables

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 57e5607..455775a 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -400,11 +400,14 @@ class PolyExpAnsatz(Ansatz):
 
         # --- Reorder core dimensions ---
         if self._lin_sup and other._lin_sup:
-            batch_shape = self.batch_shape[:-1]
+            batch_shape = tuple(A.shape[:-4])
             flattened = self.batch_shape[-1] * other.batch_shape[-1]
             A = math.reshape(A, (*batch_shape, flattened, *tuple(A.shape[-2:])))
             b = math.reshape(b, (*batch_shape, flattened, *tuple(b.shape[-1:])))
-            c = math.reshape(c, (*batch_shape, flattened, *self.shape_derived_vars))
+            c = math.reshape(
+                c,
+                (*batch_shape, flattened, *self.shape_derived_vars, *other.shape_derived_vars),
+            )
 
         result = PolyExpAnsatz(A, b, c, lin_sup=self._lin_sup or other._lin_sup)
         leftover_core = [i for i in idx1 + idx2 if isinstance(i, int) and i not in contracted_core]
@@ -913,9 +916,10 @@ class PolyExpAnsatz(Ansatz):
             ),
         )
         if self._lin_sup and other._lin_sup:  # we have two linear superposition dimensions
-            As = math.reshape(As, (*As.shape[:-4], As.shape[-4] * As.shape[-3], *As.shape[-2:]))
-            bs = math.reshape(bs, (*bs.shape[:-3], bs.shape[-3] * bs.shape[-2], *bs.shape[-1:]))
-            cs = math.reshape(cs, (*cs.shape[:-2], cs.shape[-2] * cs.shape[-1]))
+            batch = (*As.shape[:-4], As.shape[-4] * As.shape[-3])
+            As = math.reshape(As, (*batch, *As.shape[-2:]))
+            bs = math.reshape(bs, (*batch, *bs.shape[-1:]))
+            cs = math.reshape(cs, (*batch, *self.shape_derived_vars, *other.shape_derived_vars))
         return PolyExpAnsatz(As, bs, cs, lin_sup=self._lin_sup or other._lin_sup)
 
     def __call__(self: PolyExpAnsatz, *z_inputs: ArrayLike | None) -> Batch[ComplexTensor]:
-- 
2.43.0


From 7fa3f3843d1df5167a83ae27746043e5307e3620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 17/70] fix: join_Abc honours the order of batch labels in the
 output of the batch string

---
 mrmustard/physics/gaussian_integrals.py | 29 +++++++++++--------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/mrmustard/physics/gaussian_integrals.py b/mrmustard/physics/gaussian_integrals.py
index 6a82964..09562f7 100644
--- a/mrmustard/physics/gaussian_integrals.py
+++ b/mrmustard/physics/gaussian_integrals.py
@@ -241,22 +241,19 @@ def join_Abc(
             raise ValueError(f"Output dimension {dim} not found in inputs")
         output_shape.append(broadcast_dims[dim])
 
-    # Create broadcast shapes
-    broadcast_shape1 = []
-    broadcast_shape2 = []
-
-    for dim in output_str:
-        if dim in in1:
-            idx = in1.index(dim)
-            broadcast_shape1.append(batch1[idx])
-        else:
-            broadcast_shape1.append(1)
-
-        if dim in in2:
-            idx = in2.index(dim)
-            broadcast_shape2.append(batch2[idx])
-        else:
-            broadcast_shape2.append(1)
+    # Permute the batch dimensions to the order of the output and create broadcast shapes
+    def permute(tensor, labels):
+        order = sorted(range(len(labels)), key=lambda i: output_str.index(labels[i]))
+        return math.transpose(tensor, order + list(range(len(labels), len(tensor.shape))))
+
+    missing = set(in1 + in2) - set(output_str)
+    if missing:
+        raise ValueError(f"Input dimensions {sorted(missing)} not found in output")
+    A1, b1, c1_flat = (permute(t, in1) for t in (A1, b1, c1_flat))
+    A2, b2, c2_flat = (permute(t, in2) for t in (A2, b2, c2_flat))
+
+    broadcast_shape1 = [broadcast_dims[dim] if dim in in1 else 1 for dim in output_str]
+    broadcast_shape2 = [broadcast_dims[dim] if dim in in2 else 1 for dim in output_str]
 
     # Broadcast A, b, c to the output batch shape
     A1_new_shape = (*tuple(broadcast_shape1), nA1, mA1)
-- 
2.43.0


From 92cf1d8415930460bbbde89967fd47412668a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 18/70] fix: sum of ansatze with different numbers of derived
 variables; batched superpositions are refused

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 455775a..b8b1a2f 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -850,7 +850,7 @@ class PolyExpAnsatz(Ansatz):
             raise ValueError(
                 f"The number of CV variables must match. Got {self.num_CV_vars} and {other.num_CV_vars}.",
             )
-        if (self.batch_shape and not self._lin_sup) or (other.batch_shape and not other._lin_sup):
+        if self.batch_dims > self._lin_sup or other.batch_dims > other._lin_sup:
             raise ValueError(
                 f"Cannot add PolyExpAnsatz with batch dimensions {self.batch_shape} and {other.batch_shape}.",
             )
@@ -884,8 +884,10 @@ class PolyExpAnsatz(Ansatz):
         combined_matrices = pad_and_combine_Ab(A_self, A_other)
         combined_vectors = pad_and_combine_Ab(b_self, b_other)
         combined_arrays = pad_and_combine_arrays(
-            math.atleast_nd(c_self, n_derived_vars + 1),
-            math.atleast_nd(c_other, n_derived_vars + 1),
+            *(
+                math.reshape(c, tuple(c.shape) + (1,) * (n_derived_vars + 1 - len(c.shape)))
+                for c in (c_self, c_other)
+            ),
         )
         return PolyExpAnsatz(
             combined_matrices,
-- 
2.43.0


From 6e68b1075351620bf0e4f8406b06569abe6518dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 19/70] fix: linear coefficients of an ansatz in phase-space
 variables (Wigner function of displaced states)

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index b8b1a2f..04e7344 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -221,7 +221,7 @@ class PolyExpAnsatz(Ansatz):
             W = math.conj(math.rotmat(n // 2)) / math.sqrt(settings.HBAR, dtype=math.complex128)
 
             A = math.einsum("ji,...jk,kl->...il", W, self.A, W)
-            b = math.einsum("ij,...j->...i", W, self.b)
+            b = math.einsum("ji,...j->...i", W, self.b)
             c = self.c / (2 * settings.HBAR) ** (n // 2)
             return PolyExpAnsatz(A, b, c, lin_sup=self._lin_sup)
 
@@ -236,7 +236,7 @@ class PolyExpAnsatz(Ansatz):
         W = math.conj(math.rotmat(n // 2)) / math.sqrt(settings.HBAR, dtype=math.complex128)
 
         A = math.einsum("ji,...jk,kl->...il", W, A_tmp, W)
-        b = math.einsum("ij,...j->...i", W, b)
+        b = math.einsum("ji,...j->...i", W, b)
         c = c / (2 * settings.HBAR)
 
         A_final = A[..., [0, 2, 1, 3], :][..., :, [0, 2, 1, 3]]
-- 
2.43.0


From 285591f72a50315bff5ce6849049f498d0f73c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 20/70] fix: join_Abc_real with permuted indices or no leftover
 index

---
 mrmustard/physics/gaussian_integrals.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mrmustard/physics/gaussian_integrals.py b/mrmustard/physics/gaussian_integrals.py
index 09562f7..79a2ddf 100644
--- a/mrmustard/physics/gaussian_integrals.py
+++ b/mrmustard/physics/gaussian_integrals.py
@@ -136,12 +136,19 @@ def join_Abc_real(
         A2_notidx_notidx = math.gather(math.gather(A2, not_idx2, axis=-1), not_idx2, axis=-2)
         b2_notidx = math.gather(b2, not_idx2, axis=-1)
 
-    if math.asnumpy(not_idx1).shape == (0,):
-        A12 = math.block([[A1 + A2_idx_idx, A2_notidx_idx], [A2_idx_notidx, A2_notidx_notidx]])
-        b12 = math.concat([b1 + b2_idx, b2_notidx], axis=-1)
-    elif math.asnumpy(not_idx2).shape == (0,):
-        A12 = math.block([[A2 + A1_idx_idx, A1_notidx_idx], [A1_idx_notidx, A1_notidx_notidx]])
-        b12 = math.concat([b2 + b1_idx, b1_notidx], axis=-1)
+    if not_idx1.size == 0 and not_idx2.size == 0:
+        A12 = A1_idx_idx + A2_idx_idx
+        b12 = b1_idx + b2_idx
+    elif not_idx1.size == 0:
+        A12 = math.block(
+            [[A1_idx_idx + A2_idx_idx, A2_idx_notidx], [A2_notidx_idx, A2_notidx_notidx]]
+        )
+        b12 = math.concat([b1_idx + b2_idx, b2_notidx], axis=-1)
+    elif not_idx2.size == 0:
+        A12 = math.block(
+            [[A1_idx_idx + A2_idx_idx, A1_idx_notidx], [A1_notidx_idx, A1_notidx_notidx]]
+        )
+        b12 = math.concat([b1_idx + b2_idx, b1_notidx], axis=-1)
     else:
         O_n = math.zeros((len(not_idx1), len(not_idx2)), math.complex128)
         A12 = math.block(
-- 
2.43.0


From 30694b5c5ae93fa91d5a658f0da39642a8f28731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 21/70] fix: phase-space form of ansatze with batches or
 non-square polynomial coefficients

---
 mrmustard/physics/fock_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/fock_utils.py b/mrmustard/physics/fock_utils.py
index a6dcf81..9ca3ae2 100644
--- a/mrmustard/physics/fock_utils.py
+++ b/mrmustard/physics/fock_utils.py
@@ -300,7 +300,7 @@ def gamma_matrix(c):
                 )
                 value = c_ps_matrix(m, n, alpha) * math.sqrt(settings.HBAR / 2) ** (m + n)
                 row = alpha * M + (m + n - alpha)
-                col = m * c.shape[0] + n
+                col = m * c.shape[1] + n
                 Gamma[row, col] = value / factor
     return Gamma
 
@@ -311,7 +311,10 @@ def c_in_PS(c):
     It is a helper function used in
 
     Args:
-        c (Tensor): the 2-dimensional ``c`` matrix of the ``DM`` object
+        c (Tensor): the 2-dimensional ``c`` matrix of the ``DM`` object, with any batch dimensions first
     """
-    M = c.shape[0] + c.shape[1] - 1
-    return np.reshape(gamma_matrix(c) @ np.reshape(c, (c.shape[0] * c.shape[1], 1)), (M, M))
+    batch, (k, l) = tuple(c.shape[:-2]), c.shape[-2:]
+    M = k + l - 1
+    gamma = gamma_matrix(np.zeros((k, l)))
+    c_ps = np.einsum("ij,...j->...i", gamma, np.reshape(c, (*batch, k * l)))
+    return np.reshape(c_ps, (*batch, M, M))
-- 
2.43.0


From bda5b0c6b5a24b3aa532c1e9451f2fc9bb126ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 22/70] fix: ansatz equality distinguishes batch entries, batch
 shapes and superpositions

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 30 +++++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 04e7344..bf351a8 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -981,13 +981,29 @@ class PolyExpAnsatz(Ansatz):
     def __eq__(self, other) -> bool:
         if not isinstance(other, PolyExpAnsatz):
             return False
-        self_A, self_b, self_c = self._order_batch()
-        other_A, other_b, other_c = other._order_batch()
-        return (
-            math.allclose(self_A, other_A, atol=settings.ATOL)
-            and math.allclose(self_b, other_b, atol=settings.ATOL)
-            and math.allclose(self_c, other_c, atol=settings.ATOL)
-        )
+        if self._lin_sup != other._lin_sup or any(
+            tuple(x.shape) != tuple(y.shape) for x, y in zip(self.triple, other.triple)
+        ):
+            return False
+        if not self._lin_sup:
+            return all(
+                math.allclose(x, y, atol=settings.ATOL) for x, y in zip(self.triple, other.triple)
+            )
+        # the terms of a linear superposition may come in any order
+        triple1, triple2 = map(math.asnumpy, self.triple), map(math.asnumpy, other.triple)
+        same = np.ones((*self.batch_shape, self.batch_shape[-1]), dtype=bool)
+        for x, y in zip(triple1, triple2):
+            x = np.expand_dims(x, self.batch_dims)
+            y = np.expand_dims(y, self.batch_dims - 1)
+            close = np.isclose(x, y, atol=settings.ATOL)
+            same &= np.all(close, axis=tuple(range(self.batch_dims + 1, close.ndim)))
+        for match in np.reshape(same, (-1, *same.shape[-2:])):
+            left = list(range(match.shape[-1]))
+            for row in match:
+                if (found := next((j for j in left if row[j]), None)) is None:
+                    return False
+                left.remove(found)
+        return True
 
     def __mul__(self, other: Scalar | ArrayLike | PolyExpAnsatz) -> PolyExpAnsatz:
         if not isinstance(other, PolyExpAnsatz):  # could be a number
-- 
2.43.0


From 412dcf32c5d261fa0b7354f7c25c0890056d4900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 23/70] fix: arrays of different rank or kind are not equal

---
 mrmustard/physics/ansatz/array_ansatz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 45eb766..4ef1948 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -379,7 +379,11 @@ class ArrayAnsatz(Ansatz):
         raise AttributeError("Cannot call an ArrayAnsatz.")
 
     def __eq__(self, other: Ansatz) -> bool:
-        if self.batch_shape != other.batch_shape:
+        if (
+            not isinstance(other, ArrayAnsatz)
+            or self.batch_shape != other.batch_shape
+            or self.core_dims != other.core_dims
+        ):
             return False
         slices = tuple(slice(0, min(si, oi)) for si, oi in zip(self.core_shape, other.core_shape))
         return math.allclose(
-- 
2.43.0


From 36464a5a3c68852eed5fc26a79f03c71341f7313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 24/70] fix: simplify a superposition of numbers

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index bf351a8..3636e65 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -733,9 +733,9 @@ class PolyExpAnsatz(Ansatz):
         """
         if not self.batch_shape:
             return self.A, self.b, self.c
-        A_vectorized = math.reshape(self.A, (-1, self.num_vars, self.num_vars))
-        b_vectorized = math.reshape(self.b, (-1, self.num_vars))
-        c_vectorized = math.reshape(self.c, (-1, *self.shape_derived_vars))
+        A_vectorized = math.reshape(self.A, (self.batch_size, self.num_vars, self.num_vars))
+        b_vectorized = math.reshape(self.b, (self.batch_size, self.num_vars))
+        c_vectorized = math.reshape(self.c, (self.batch_size, *self.shape_derived_vars))
         generators = [
             itertools.chain(
                 math.asnumpy(b_vectorized[i]).flat,
-- 
2.43.0


From 5559d7fc18d8d69a0daa1f93358595e4f088668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 25/70] fix: eval honours the order of batch labels in the
 output of the batch string

---
 mrmustard/physics/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrmustard/physics/utils.py b/mrmustard/physics/utils.py
index 3ee949c..386e22d 100644
--- a/mrmustard/physics/utils.py
+++ b/mrmustard/physics/utils.py
@@ -102,8 +102,11 @@ def reshape_args_to_batch_string(
 
     reshaped = []
     for arg, spec in zip(args, input_specs):
+        if missing := set(spec) - set(output_spec):
+            raise ValueError(f"Labels {sorted(missing)} not found in the output {output_spec}")
+        order = sorted(range(len(spec)), key=lambda i: output_spec.index(spec[i]))
         new_shape = [dim_sizes[label] if label in spec else 1 for label in output_spec]
-        reshaped.append(math.reshape(arg, new_shape))
+        reshaped.append(math.reshape(math.transpose(arg, order), new_shape))
     return reshaped
 
 
-- 
2.43.0


From 0b2d3744c06b0b0b18cdcf5168ce3cdd40b24c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 26/70] fix: mm_einsum converts superpositions and derived
 variables correctly and honours the requested output

---
 mrmustard/physics/mm_einsum.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/mm_einsum.py b/mrmustard/physics/mm_einsum.py
index a731e2c..39c2c80 100644
--- a/mrmustard/physics/mm_einsum.py
+++ b/mrmustard/physics/mm_einsum.py
@@ -152,9 +152,13 @@ def mm_einsum(
     result = ansatze[0]
     final_idx_str, final_idx_int = _strings(indices[0]), _ints(indices[0])
     output_idx_str, output_idx_int = _strings(output), _ints(output)
+    if set(output) != set(indices[0]):
+        raise ValueError(f"The output indices do not match the remaining indices {indices[0]}.")
 
     if len(output_idx_str) > 1:
-        result = result.reorder_batch([final_idx_str.index(i) for i in output_idx_str])
+        order = [final_idx_str.index(i) for i in output_idx_str]
+        order += range(len(order), result.batch_dims)  # linear superposition goes last
+        result = result.reorder_batch(order)
     if len(output_idx_int) > 1:
         result = result.reorder([final_idx_int.index(i) for i in output_idx_int])
     if final_idx_int and all(fock_dims.get(i, 1) == 0 for i in final_idx_int):
@@ -286,10 +290,21 @@ def to_fock(ansatz: Ansatz, shape: tuple[int, ...], stable: bool = False) -> Arr
         raise ValueError("Fock space dimension is 0.")
     if isinstance(ansatz, ArrayAnsatz):
         return ansatz.reduce(shape)
-    array = math.hermite_renormalized(*ansatz.triple, shape, stable)
+    A, b, c = ansatz.triple
+    shape = tuple(shape)
+    batch_dims = ansatz.batch_dims
+    if ansatz.num_derived_vars == 0:
+        array = math.hermite_renormalized(A, b, c, shape, stable)
+    else:
+        ones = math.ones(ansatz.batch_shape, dtype=math.complex128)
+        array = math.hermite_renormalized(A, b, ones, shape + ansatz.shape_derived_vars, stable)
+        array = math.reshape(array, ansatz.batch_shape + shape + (-1,))
+        c = math.reshape(c, ansatz.batch_shape + (1,) * len(shape) + (-1,))
+        array = math.sum(array * c, axis=-1)
     if ansatz._lin_sup:
-        array = math.sum(array, axis=ansatz.batch_dims)
-    return ArrayAnsatz(array, ansatz.batch_dims)
+        batch_dims -= 1
+        array = math.sum(array, axis=batch_dims)
+    return ArrayAnsatz(array, batch_dims)
 
 
 def to_bargmann(ansatz: Ansatz) -> PolyExpAnsatz:
-- 
2.43.0


From 1bb7b4706d4ab41d77ca88206f9236ca11c3a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 27/70] fix: equality of ansatze keeps comparing a batch with a
 single ansatz or a superposition

---
 mrmustard/physics/ansatz/array_ansatz.py   |  6 +-----
 mrmustard/physics/ansatz/polyexp_ansatz.py | 12 ++++++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 4ef1948..44c2346 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -379,11 +379,7 @@ class ArrayAnsatz(Ansatz):
         raise AttributeError("Cannot call an ArrayAnsatz.")
 
     def __eq__(self, other: Ansatz) -> bool:
-        if (
-            not isinstance(other, ArrayAnsatz)
-            or self.batch_shape != other.batch_shape
-            or self.core_dims != other.core_dims
-        ):
+        if not isinstance(other, ArrayAnsatz) or self.batch_shape != other.batch_shape:
             return False
         slices = tuple(slice(0, min(si, oi)) for si, oi in zip(self.core_shape, other.core_shape))
         return math.allclose(
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 3636e65..0522740 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -981,14 +981,18 @@ class PolyExpAnsatz(Ansatz):
     def __eq__(self, other) -> bool:
         if not isinstance(other, PolyExpAnsatz):
             return False
-        if self._lin_sup != other._lin_sup or any(
-            tuple(x.shape) != tuple(y.shape) for x, y in zip(self.triple, other.triple)
-        ):
+        if self.num_vars != other.num_vars or self.shape_derived_vars != other.shape_derived_vars:
+            return False
+        try:  # an ansatz may be compared with a batch of ansatze
+            np.broadcast_shapes(self.batch_shape, other.batch_shape)
+        except ValueError:
             return False
-        if not self._lin_sup:
+        if not (self._lin_sup and other._lin_sup):
             return all(
                 math.allclose(x, y, atol=settings.ATOL) for x, y in zip(self.triple, other.triple)
             )
+        if self.batch_shape != other.batch_shape:
+            return False
         # the terms of a linear superposition may come in any order
         triple1, triple2 = map(math.asnumpy, self.triple), map(math.asnumpy, other.triple)
         same = np.ones((*self.batch_shape, self.batch_shape[-1]), dtype=bool)
-- 
2.43.0


From deb44db0c43f46050308c47f4bb5e8731921acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 28/70] fix: comparing arrays of different rank does not raise

---
 mrmustard/physics/ansatz/array_ansatz.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 44c2346..0b38ac2 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -382,11 +382,12 @@ class ArrayAnsatz(Ansatz):
         if not isinstance(other, ArrayAnsatz) or self.batch_shape != other.batch_shape:
             return False
         slices = tuple(slice(0, min(si, oi)) for si, oi in zip(self.core_shape, other.core_shape))
-        return math.allclose(
-            self.array[(..., *slices)],
-            other.array[(..., *slices)],
-            atol=settings.ATOL,
-        )
+        array1, array2 = self.array[(..., *slices)], other.array[(..., *slices)]
+        try:
+            np.broadcast_shapes(array1.shape, array2.shape)
+        except ValueError:
+            return False
+        return math.allclose(array1, array2, atol=settings.ATOL)
 
     def __mul__(self, other: Scalar | ArrayLike) -> ArrayAnsatz:
         return ArrayAnsatz(array=self.array * other, batch_dims=self.batch_dims)
-- 
2.43.0


From bf90b67db4a7c8212199599b56e057985bea45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 29/70] fix: Wigner function of a state was mirrored in
 momentum

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 0522740..42a156f 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -218,7 +218,7 @@ class PolyExpAnsatz(Ansatz):
             )
 
         if self.num_derived_vars == 0:
-            W = math.conj(math.rotmat(n // 2)) / math.sqrt(settings.HBAR, dtype=math.complex128)
+            W = math.rotmat(n // 2) / math.sqrt(settings.HBAR, dtype=math.complex128)
 
             A = math.einsum("ji,...jk,kl->...il", W, self.A, W)
             b = math.einsum("ji,...j->...i", W, self.b)
@@ -231,9 +231,10 @@ class PolyExpAnsatz(Ansatz):
 
         A_tmp = A_tmp[..., [0, 2, 1, 3], :][..., [0, 2, 1, 3]]
         b = self.b[..., [0, 2, 1, 3]]
-        c = c_in_PS(self.c)  # implements PS transformations on ``c``
+        # implements PS transformations on ``c``
+        c = c_in_PS(math.swapaxes(self.c, -1, -2))
 
-        W = math.conj(math.rotmat(n // 2)) / math.sqrt(settings.HBAR, dtype=math.complex128)
+        W = math.rotmat(n // 2) / math.sqrt(settings.HBAR, dtype=math.complex128)
 
         A = math.einsum("ji,...jk,kl->...il", W, A_tmp, W)
         b = math.einsum("ji,...j->...i", W, b)
-- 
2.43.0


From 0035f86d4b60973ceabbc90fb520db49f7e94e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 30/70] fix: photon-number distribution of superpositions, Fock
 and separable multimode density matrices

---
 mrmustard/lab/states/base.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mrmustard/lab/states/base.py b/mrmustard/lab/states/base.py
index 533d3d7..540f967 100644
--- a/mrmustard/lab/states/base.py
+++ b/mrmustard/lab/states/base.py
@@ -19,7 +19,6 @@ from __future__ import annotations
 from abc import abstractmethod
 from collections.abc import Sequence
 from enum import Enum
-from itertools import product
 
 import numpy as np
 import plotly.graph_objects as go
@@ -453,18 +452,16 @@ class State(CircuitComponent):
         Returns:
             The Fock distribution.
         """
-        batch_shape = self.ansatz.batch_shape
-        batch_dim = self.ansatz.batch_dims
+        batch_dims = self.ansatz.batch_dims - self.ansatz._lin_sup
+        batch_shape = self.ansatz.batch_shape[:batch_dims]
         fock_array = self.fock_array(cutoff)
         if not self.wires.ket or not self.wires.bra:
             return math.reshape(math.abs(fock_array) ** 2, (*batch_shape, -1))
         n_modes = self.n_modes
-        if self.is_separable:
-            for i in range(n_modes):
-                fock_array = math.diagonal(fock_array, axis1=-n_modes - 1, axis2=-(1 + i))
-            return math.reshape(math.abs(fock_array), (*batch_shape, -1))
-        indices_list = [(...,) + ns * 2 for ns in product(list(range(cutoff)), repeat=n_modes)]
-        return math.stack([fock_array[indices] for indices in indices_list], axis=batch_dim)
+        for i in range(n_modes):
+            # the bra and ket indices of mode ``i``, the diagonal is appended as the last index
+            fock_array = math.diagonal(fock_array, axis1=batch_dims, axis2=batch_dims + n_modes - i)
+        return math.reshape(math.real(fock_array), (*batch_shape, -1))
 
     @abstractmethod
     def formal_stellar_decomposition(
-- 
2.43.0


From 2cdf2944281e96290f547666a74de35f59b5d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 31/70] fix: quadrature values of Fock arrays for input wires
 and large mode labels

---
 mrmustard/lab/circuit_components.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 1dc5938..e94accd 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -587,8 +587,10 @@ class CircuitComponent:
         Returns:
             A circuit component with the given quadrature representation.
         """
+        q_chars = {mode: chr(97 + i) for i, mode in enumerate(self.modes)}
         if isinstance(self.ansatz, ArrayAnsatz):
-            conjugates = [i not in self.wires.ket.indices for i in range(len(self.wires.indices))]
+            # output bra and input ket wires are contracted with the conjugate wavefunctions
+            conjugates = [w.is_ket != w.is_out for w in self.wires.sorted_wires]
             dims = self.ansatz.core_dims
 
             if len(quad) != dims:
@@ -611,12 +613,9 @@ class CircuitComponent:
             # Convert each dimension to quadrature
             fock_string = "".join([chr(97 + self.n_modes + dim) for dim in range(dims)])
             q_string = "".join(
-                [
-                    f"{fock_string[idx]}{chr(97 + wire.mode)},"
-                    for idx, wire in enumerate(self.wires)
-                ],
+                [f"{fock_string[idx]}{q_chars[wire.mode]}," for idx, wire in enumerate(self.wires)],
             )[:-1]
-            out_string = "".join([chr(97 + mode) for mode in self.modes])
+            out_string = "".join([q_chars[mode] for mode in self.modes])
             ret = math.einsum(
                 "..." + fock_string + "," + q_string + "->" + out_string + "...",
                 self.ansatz.array,
@@ -625,9 +624,9 @@ class CircuitComponent:
             )
         else:
             batch_str = (
-                "".join([chr(97 + wire.mode) + "," for wire in self.wires])[:-1]
+                "".join([q_chars[wire.mode] + "," for wire in self.wires])[:-1]
                 + "->"
-                + "".join([chr(97 + mode) for mode in self.modes])
+                + "".join([q_chars[mode] for mode in self.modes])
             )
             ret = self.to_quadrature(phi=phi).ansatz.eval(*quad, batch_string=batch_str)
         batch_shape = (
-- 
2.43.0


From 1b7096111f5fdf5648967defa95773b5c1653162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 32/70] fix: Transformation.from_fock exchanged output and
 input modes

---
 mrmustard/lab/transformations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 4b354dc..346357e 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -103,7 +103,7 @@ class Transformation(CircuitComponent):
         Returns:
             A transformation in the Fock representation.
         """
-        return cls.from_ansatz(modes_in, modes_out, ArrayAnsatz(array, batch_dims), name)
+        return cls.from_ansatz(modes_out, modes_in, ArrayAnsatz(array, batch_dims), name)
 
     @classmethod
     def from_quadrature(
-- 
2.43.0


From 5f82608864bd49de4027e8665d6c42d02edc29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 33/70] fix: tracing out modes of a superposition of kets

---
 mrmustard/lab/circuit_components_utils/trace_out.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index dd39615..bbcb5b4 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -98,7 +98,7 @@ class TraceOut(CircuitComponent):
             ansatz = other.ansatz
             wires = other.wires
         elif not ket or not bra:
-            B = other.ansatz.batch_dims
+            B = other.ansatz.batch_dims - other.ansatz._lin_sup
             C = other.ansatz.core_dims
             batch = [chr(97 + i) for i in range(B)]
             wires = ket + bra
-- 
2.43.0


From dfb429c3bbde0c63ff9e634e571523782888cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 34/70] fix: tracing no index of a Fock array returns it
 unchanged

---
 mrmustard/physics/ansatz/array_ansatz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 0b38ac2..8499993 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -290,6 +290,8 @@ class ArrayAnsatz(Ansatz):
     def trace(self, idx_z: tuple[int, ...], idx_zconj: tuple[int, ...]) -> ArrayAnsatz:
         if len(idx_z) != len(idx_zconj) or not set(idx_z).isdisjoint(idx_zconj):
             raise ValueError("The idxs must be of equal length and disjoint.")
+        if len(idx_z) == 0:
+            return ArrayAnsatz(self.array, self.batch_dims)
         order = (
             list(range(self.batch_dims))
             + [self.batch_dims + i for i in range(self.core_dims) if i not in idx_z + idx_zconj]
-- 
2.43.0


From 0e5bc2c6ae3e3e59edb811d42cd54863f3eb9a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 35/70] fix: nested settings contexts restore the values of the
 enclosing context

---
 mrmustard/utils/settings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrmustard/utils/settings.py b/mrmustard/utils/settings.py
index 3183a74..bc96c0c 100644
--- a/mrmustard/utils/settings.py
+++ b/mrmustard/utils/settings.py
@@ -102,6 +102,7 @@ class Settings:
         r"""Whether to use the ``stable`` function when computing Fock amplitudes (more stable, but slower). Default is ``False``."""
 
         self._original_values = {}
+        self._entered_values = []
         self._frozen = True
 
     @property
@@ -152,11 +153,13 @@ class Settings:
 
     def __enter__(self):
         "context manager enter method"
+        self._entered_values.append(self._original_values)
+        self._original_values = {}
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
         "context manager exit method that resets the settings to their original values"
-        for k, v in self._original_values.items():
+        for k, v in self._entered_values.pop().items():
             setattr(self, k, v)
 
     # use rich.table to print the settings
-- 
2.43.0


From ffd36c47b800639b62712b9d8b62499f5a34aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 36/70] fix: cached oscillator wavefunctions were reused after
 a change of hbar or backend

---
 mrmustard/math/caching.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mrmustard/math/caching.py b/mrmustard/math/caching.py
index 9f74b94..19e5d3e 100644
--- a/mrmustard/math/caching.py
+++ b/mrmustard/math/caching.py
@@ -19,6 +19,7 @@ from functools import lru_cache, wraps
 import numpy as np
 
 from mrmustard.math.backend_manager import BackendManager
+from mrmustard.utils.settings import settings
 
 math = BackendManager()
 
@@ -32,13 +33,19 @@ def tensor_int_cache(fn):
     the result."""
 
     @lru_cache
-    def cached_wrapper(hashable_array, cutoff):
+    def cached_wrapper(hashable_array, cutoff, hbar, backend_name):  # noqa: ARG001
         array = np.array(hashable_array, dtype=np.float64)
         return fn(array, cutoff)
 
     @wraps(fn)
     def wrapper(tensor, cutoff):
-        return cached_wrapper(tuple(math.asnumpy(tensor)), cutoff)
+        # the result also depends on the value of hbar and on the backend
+        return cached_wrapper(
+            tuple(math.asnumpy(tensor)),
+            cutoff,
+            settings.HBAR,
+            math.backend_name,
+        )
 
     # copy lru_cache attributes over too
     wrapper.cache_info = cached_wrapper.cache_info
-- 
2.43.0


From a0621d2f021abac9cf9c64f48412d3d029f365ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 37/70] fix: seeded samplers ignored the seed when it was zero
 and when drawing the later modes

---
 mrmustard/lab/samplers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mrmustard/lab/samplers.py b/mrmustard/lab/samplers.py
index 700d459..8ea20e6 100644
--- a/mrmustard/lab/samplers.py
+++ b/mrmustard/lab/samplers.py
@@ -90,6 +90,7 @@ class Sampler(ABC):
         Returns:
             An array of samples such that the shape is ``(n_samples, n_modes)``.
         """
+        seed = np.random.default_rng(seed) if seed is not None else None
         if len(state.modes) == 1:
             return self.sample_prob_dist(state, n_samples, seed)[0]
 
@@ -107,7 +108,7 @@ class Sampler(ABC):
             prob = probs[idx]
             norm = math.sqrt(prob) if isinstance(state, Ket) else prob
             reduced_state = (state >> meas_op) / norm
-            samples = self.sample(reduced_state, count)
+            samples = self.sample(reduced_state, count, seed)
             ret.extend(np.append([unique_sample], sample) for sample in samples)
         return np.array(ret)
 
@@ -129,7 +130,7 @@ class Sampler(ABC):
             A tuple of the generated samples and the probability
             of obtaining the sample.
         """
-        rng = np.random.default_rng(seed) if seed else settings.rng
+        rng = np.random.default_rng(seed) if seed is not None else settings.rng
         probs = self.probabilities(state)
         meas_outcomes = list(product(self.meas_outcomes, repeat=len(state.modes)))
         samples = rng.choice(
@@ -228,6 +229,7 @@ class HomodyneSampler(Sampler):
         return self._validate_probs(probs, atol)
 
     def sample(self, state: State, n_samples: int = 1000, seed: int | None = None) -> np.ndarray:
+        seed = np.random.default_rng(seed) if seed is not None else None
         if len(state.modes) == 1:
             return self.sample_prob_dist(state, n_samples, seed)[0]
 
@@ -247,6 +249,6 @@ class HomodyneSampler(Sampler):
             prob = probs[idx] / self._step
             norm = math.sqrt(prob) if isinstance(state, Ket) else prob
             normalized_reduced_state = reduced_state / norm
-            samples = self.sample(normalized_reduced_state, count)
+            samples = self.sample(normalized_reduced_state, count, seed)
             ret.extend(np.append([unique_sample], sample) for sample in samples)
         return np.array(ret)
-- 
2.43.0


From 9d9d54d480355e878a391b725c6d684bfbaeac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 38/70] fix: recurrence of the automatic Fock shape of Gaussian
 states

---
 mrmustard/math/lattice/autoshape.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrmustard/math/lattice/autoshape.py b/mrmustard/math/lattice/autoshape.py
index 4c3ac97..d15a3fa 100644
--- a/mrmustard/math/lattice/autoshape.py
+++ b/mrmustard/math/lattice/autoshape.py
@@ -132,7 +132,9 @@ def autoshape_numba(A, b, c, max_prob, max_shape, min_shape) -> int:  # pragma:
         norm = np.abs(c_)
         k = 0
         while norm < max_prob and k < max_shape:
-            buf2[(k + 1) % 2] = (b_ * buf3[k % 2, 1] + A_ @ buf2[k % 2] * SQRT[k]) / SQRT[k + 1]
+            buf2[(k + 1) % 2] = (
+                b_ * buf3[k % 2, 1] + A_ @ np.ascontiguousarray(buf2[k % 2, ::-1]) * SQRT[k]
+            ) / SQRT[k + 1]
             buf3[(k + 1) % 2, 0] = (
                 b_[0] * buf2[(k + 1) % 2, 0]
                 + A_[0, 0] * buf3[k % 2, 1] * SQRT[k + 1]
-- 
2.43.0


From 979d47195d54a073ec95d6f891718667bd8ff053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 39/70] fix: homodyne sampler on density matrices,
 superpositions and Fock arrays

---
 mrmustard/lab/samplers.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mrmustard/lab/samplers.py b/mrmustard/lab/samplers.py
index 8ea20e6..a7f6f4e 100644
--- a/mrmustard/lab/samplers.py
+++ b/mrmustard/lab/samplers.py
@@ -243,9 +243,17 @@ class HomodyneSampler(Sampler):
         )
         ret = []
         for unique_sample, idx, count in zip(unique_samples, idxs, counts):
-            # Use partial_eval to evaluate the ansatz at the first mode only
-            reduced_ansatz = (state >> BtoQ([initial_mode], phi=self._phi)).ansatz(unique_sample)
-            reduced_state = state.from_bargmann(state.modes[1:], reduced_ansatz.triple)
+            # Use partial_eval to evaluate the ansatz at the first mode only (both at its bra
+            # and at its ket variable for density matrices)
+            quad_ansatz = (state.to_bargmann() >> BtoQ([initial_mode], phi=self._phi)).ansatz
+            initial_indices = state.wires[initial_mode].indices
+            reduced_ansatz = quad_ansatz(
+                *(
+                    unique_sample if i in initial_indices else None
+                    for i in range(quad_ansatz.core_dims)
+                ),
+            )
+            reduced_state = state.from_ansatz(state.modes[1:], reduced_ansatz)
             prob = probs[idx] / self._step
             norm = math.sqrt(prob) if isinstance(state, Ket) else prob
             normalized_reduced_state = reduced_state / norm
-- 
2.43.0


From 7ba34bbb8c97019c902c4de73e9a7e94f04b9973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 40/70] fix: light copies and relabelled components lost the
 representation and cutoff of their wires

---
 mrmustard/lab/circuit_components.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index e94accd..e28c057 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -564,14 +564,16 @@ class CircuitComponent:
         for subset in subsets:
             if subset and len(subset) != len(modes):
                 raise ValueError(f"Expected ``{len(modes)}`` modes, found ``{len(subset)}``.")
-        return self._light_copy(
-            Wires(
-                modes_out_bra=set(modes) if ob else set(),
-                modes_in_bra=set(modes) if ib else set(),
-                modes_out_ket=set(modes) if ok else set(),
-                modes_in_ket=set(modes) if ik else set(),
-            ),
+        wires = Wires(
+            modes_out_bra=set(modes) if ob else set(),
+            modes_in_bra=set(modes) if ib else set(),
+            modes_out_ket=set(modes) if ok else set(),
+            modes_in_ket=set(modes) if ik else set(),
         )
+        for new, old in zip(wires.quantum.sorted_wires, self.wires.quantum.sorted_wires):
+            new.repr = old.repr
+            new.fock_cutoff = old.fock_cutoff
+        return self._light_copy(wires)
 
     def quadrature(self, *quad: RealVector, phi: float = 0.0) -> ComplexTensor:
         r"""
@@ -802,7 +804,7 @@ class CircuitComponent:
         instance = super().__new__(self.__class__)
         instance.__dict__ = self.__dict__.copy()
         instance._ansatz = self.ansatz
-        instance._wires = wires or Wires(*self.wires.args)
+        instance._wires = wires or self.wires.copy(new_ids=True)
         return instance
 
     def _rshift_return(
-- 
2.43.0


From 4d0288bfabf61402bfa0ebb7eb5f0306d3c43d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 41/70] fix: loading an archive overwrote and deleted unpacked
 objects of the same name, removal before a failed rebuild

---
 mrmustard/utils/serialize.py | 42 +++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/mrmustard/utils/serialize.py b/mrmustard/utils/serialize.py
index 36a0bfd..28c63af 100644
--- a/mrmustard/utils/serialize.py
+++ b/mrmustard/utils/serialize.py
@@ -15,6 +15,7 @@
 """A serialization library for MrMustard."""
 
 import json
+from io import BytesIO
 from pathlib import Path
 from pydoc import locate
 from time import strftime
@@ -97,36 +98,37 @@ def load(file: Path, remove_after=False):
         remove_after (Optional[bool]): Once load is complete, delete the saved
             file. Default is False
     """
-    was_zipped = False
     file = Path(file)
-    if file.suffix == ".zip":
-        was_zipped = True
+    is_zip = file.suffix == ".zip"
+    if is_zip:  # read the archive without unpacking it over other files of the same name
         with ZipFile(file) as zipf:
-            zipf.extractall(file.parent)
-        file = file.with_suffix(".json")
-
-    with file.open("r", encoding="utf-8") as f:
-        data: dict = json.load(f)
+            contents = {Path(name).suffix: zipf.read(name) for name in zipf.namelist()}
+        data: dict = json.loads(contents[".json"].decode("utf-8"))
+    else:
+        with file.open("r", encoding="utf-8") as f:
+            data: dict = json.load(f)
 
     cls = locate(data.pop("class"))
     _ = data.pop("version")
 
+    files = [file]
     if data.pop("arrays"):
-        npz_file = file.with_suffix(".npz")
         if (backend := data.pop("backend")) != math.backend_name:
-            if was_zipped:
-                npz_file.unlink()
-                file.unlink()
             raise TypeError(
                 f"Data serialized with {backend} backend, cannot deserialize to the currently active {math.backend_name} backend",
             )
-        data.update(**{k: math.astensor(v) for k, v in np.load(npz_file).items()})
-        if remove_after or was_zipped:
-            npz_file.unlink()
+        if is_zip:
+            npz_file = BytesIO(contents[".npz"])
+        else:
+            npz_file = file.with_suffix(".npz")
+            files.append(npz_file)
+        with np.load(npz_file) as arrays:
+            data.update(**{k: math.astensor(v) for k, v in arrays.items()})
 
-    if remove_after or was_zipped:
-        file.unlink()
-        if remove_after and was_zipped:
-            file.with_suffix(".zip").unlink()
+    ret = cls.deserialize(data)
+
+    if remove_after:
+        for f in files:
+            f.unlink()
 
-    return cls.deserialize(data)
+    return ret
-- 
2.43.0


From 96a90ac7169d56649d9c11840c044aae58d09457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 42/70] fix: serialisation of colliding mode labels,
 superpositions, trainable matrices, constructor options, converted components
 and empty circuits

---
 mrmustard/lab/circuit_components.py        | 67 +++++++++++++++++-----
 mrmustard/lab/circuits.py                  |  4 +-
 mrmustard/physics/ansatz/array_ansatz.py   |  2 +-
 mrmustard/physics/ansatz/polyexp_ansatz.py |  9 ++-
 4 files changed, 64 insertions(+), 18 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index e28c057..7601a91 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -316,15 +316,32 @@ class CircuitComponent:
         Returns:
             A circuit component with the given serialized data.
         """
-        if "ansatz_cls" in data:
+        wire_attributes = data.pop("wire_attributes", None)
+        if "ansatz_cls" in data and "name" in data:
             ansatz_cls, wires, name = map(data.pop, ["ansatz_cls", "wires", "name"])
             ansatz = locate(ansatz_cls).from_dict(data)
-            return cls._from_attributes(ansatz, Wires(*tuple(set(m) for m in wires)), name=name)
-        if "modes" in data:
-            data["modes"] = tuple(data["modes"])
-        elif "mode" in data:
-            data["mode"] = tuple(data["mode"])
-        return cls(**data)
+            ret = cls._from_attributes(ansatz, Wires(*tuple(set(m) for m in wires)), name=name)
+        else:
+            if "modes" in data:
+                data["modes"] = tuple(data["modes"])
+            elif "mode" in data:
+                data["mode"] = tuple(data["mode"])
+            lin_sup = data.pop("lin_sup", False)
+            ansatz_cls, wires = data.pop("ansatz_cls", None), data.pop("wires", None)
+            ansatz = {k: data.pop(k) for k in tuple(data) if k.startswith("ansatz_")}
+            ret = cls(**data)
+            if lin_sup:
+                ret.ansatz._lin_sup = True
+            if ansatz_cls is not None:
+                ansatz = {k.removeprefix("ansatz_"): v for k, v in ansatz.items()}
+                ret._ansatz = locate(ansatz_cls).from_dict(ansatz)
+                ret._wires = Wires(*tuple(set(m) for m in wires))
+
+        if wire_attributes is not None:
+            for w, (wire_repr, cutoff) in zip(ret.wires.quantum.sorted_wires, wire_attributes):
+                w.repr = ReprEnum(wire_repr)
+                w.fock_cutoff = cutoff
+        return ret
 
     @classmethod
     def _from_attributes(
@@ -829,28 +846,50 @@ class CircuitComponent:
         cls = type(self)
         serializable = {"class": f"{cls.__module__}.{cls.__qualname__}"}
         params = signature(cls).parameters
+
+        wire_attributes = [
+            (w.repr.value, None if w.fock_cutoff is None else int(w.fock_cutoff))
+            for w in self.wires.quantum.sorted_wires
+        ]
+        if any(attributes != (ReprEnum.BARGMANN.value, None) for attributes in wire_attributes):
+            serializable["wire_attributes"] = wire_attributes
+
+        ansatz_cls = type(self.ansatz)
+        ansatz_cls = f"{ansatz_cls.__module__}.{ansatz_cls.__qualname__}"
         if "name" in params:  # assume abstract type, serialize the representation
-            ansatz_cls = type(self.ansatz)
             serializable["name"] = self.name
             serializable["wires"] = tuple(tuple(a) for a in self.wires.args)
-            serializable["ansatz_cls"] = f"{ansatz_cls.__module__}.{ansatz_cls.__qualname__}"
+            serializable["ansatz_cls"] = ansatz_cls
             return serializable, self.ansatz.to_dict()
 
         # handle modes parameter
         if "modes" in params:
-            serializable["modes"] = tuple(self.wires.modes)
+            serializable["modes"] = tuple(sorted(self.wires.modes))
         elif "mode" in params:
-            serializable["mode"] = tuple(self.wires.modes)
+            serializable["mode"] = tuple(sorted(self.wires.modes))
         else:
             raise TypeError(f"{cls.__name__} does not seem to have any wires construction method")
 
         if self.parameters:
             for k, v in self.parameters.variables.items():
-                serializable[f"{k}_bounds"] = v.bounds
+                if f"{k}_bounds" in params:
+                    serializable[f"{k}_bounds"] = v.bounds
                 serializable[f"{k}_trainable"] = True
-            return serializable, {k: v.value for k, v in self.parameters.all_parameters.items()}
+        arrays = {k: v.value for k, v in self.parameters.all_parameters.items()}
 
-        return serializable, {}
+        if self.ansatz is not None:
+            if self.ansatz._fn is None:  # the ansatz was converted, parameters do not determine it
+                serializable["wires"] = tuple(tuple(a) for a in self.wires.args)
+                serializable["ansatz_cls"] = ansatz_cls
+                arrays |= {f"ansatz_{k}": v for k, v in self.ansatz.to_dict().items()}
+            else:
+                if self.ansatz._lin_sup:
+                    serializable["lin_sup"] = True
+                # arguments of the constructor that are not parameters
+                for k, v in self.ansatz._kwargs.items():
+                    if k in params and k not in arrays:
+                        serializable[k] = v
+        return serializable, arrays
 
     def _tree_flatten(self):  # pragma: no cover
         children = (self.parameters, self.ansatz)
diff --git a/mrmustard/lab/circuits.py b/mrmustard/lab/circuits.py
index edfe3bf..edec52e 100644
--- a/mrmustard/lab/circuits.py
+++ b/mrmustard/lab/circuits.py
@@ -272,7 +272,9 @@ class Circuit:
         Args:
             filestem: An optional name to give the resulting file saved to disk.
         """
-        components, data = list(zip(*[c._serialize() for c in self.components]))
+        serialized = [c._serialize() for c in self.components]
+        components = [component for component, _ in serialized]
+        data = [arrays for _, arrays in serialized]
         kwargs = {
             "arrays": {f"{k}:{i}": v for i, arrs in enumerate(data) for k, v in arrs.items()},
             "path": self.path,
diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 8499993..f17b294 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -133,7 +133,7 @@ class ArrayAnsatz(Ansatz):
 
     @classmethod
     def from_dict(cls, data: dict[str, ArrayLike]) -> ArrayAnsatz:
-        return cls(**data)
+        return cls(data["array"], batch_dims=int(data["batch_dims"]))
 
     @classmethod
     def from_function(cls, fn: Callable, batch_dims: int = 0, **kwargs: Any) -> ArrayAnsatz:
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 42a156f..ca84c13 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -275,7 +275,9 @@ class PolyExpAnsatz(Ansatz):
     @classmethod
     def from_dict(cls, data: dict[str, ArrayLike]) -> PolyExpAnsatz:
         r"""Creates an ansatz from a dictionary. For deserialization purposes."""
-        return cls(**data)
+        data = dict(data)
+        lin_sup = bool(data.pop("lin_sup", False))
+        return cls(**data, lin_sup=lin_sup)
 
     @classmethod
     def from_function(cls, fn: Callable, **kwargs: Any) -> PolyExpAnsatz:
@@ -585,7 +587,10 @@ class PolyExpAnsatz(Ansatz):
 
     def to_dict(self) -> dict[str, ArrayLike]:
         r"""Returns a dictionary representation of the ansatz. For serialization purposes."""
-        return {"A": self.A, "b": self.b, "c": self.c}
+        ret = {"A": self.A, "b": self.b, "c": self.c}
+        if self._lin_sup:
+            ret["lin_sup"] = True
+        return ret
 
     def trace(self, idx_z: tuple[int, ...], idx_zconj: tuple[int, ...], measure: float = -1.0):
         r"""
-- 
2.43.0


From 1f548f448ad0ebfd0808c62f39f00c783077e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 43/70] fix: sums, multiples and empty traces shared their
 wires with the operand

---
 mrmustard/lab/circuit_components.py                 | 8 ++++----
 mrmustard/lab/circuit_components_utils/trace_out.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 7601a91..49f964a 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -935,7 +935,7 @@ class CircuitComponent:
             return ret
         ansatz = self.ansatz + other.ansatz
         name = self.name if self.name == other.name else ""
-        ret = self._from_attributes(ansatz, self.wires, name)
+        ret = self._from_attributes(ansatz, self.wires.copy(), name)
         ret.manual_shape = tuple(
             max(a, b) if a is not None and b is not None else a or b
             for a, b in zip(self.manual_shape, other.manual_shape)
@@ -957,7 +957,7 @@ class CircuitComponent:
         r"""
         Implements the multiplication by a scalar from the right.
         """
-        return self._from_attributes(self.ansatz * other, self.wires, self.name)
+        return self._from_attributes(self.ansatz * other, self.wires.copy(), self.name)
 
     def __repr__(self) -> str:
         ansatz = self.ansatz
@@ -1055,13 +1055,13 @@ class CircuitComponent:
             raise ValueError("Cannot subtract components with different wires.")
         ansatz = self.ansatz - other.ansatz
         name = self.name if self.name == other.name else ""
-        return self._from_attributes(ansatz, self.wires, name)
+        return self._from_attributes(ansatz, self.wires.copy(), name)
 
     def __truediv__(self, other: Scalar) -> CircuitComponent:
         r"""
         Implements the division by a scalar for circuit components.
         """
-        return self._from_attributes(self.ansatz / other, self.wires, self.name)
+        return self._from_attributes(self.ansatz / other, self.wires.copy(), self.name)
 
     def _ipython_display_(self):
         if mmwidgets.IN_INTERACTIVE_SHELL:
diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index bbcb5b4..7ebd547 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -96,7 +96,7 @@ class TraceOut(CircuitComponent):
         bra = other.wires.output.bra
         if len(self.wires) == 0:
             ansatz = other.ansatz
-            wires = other.wires
+            wires = other.wires.copy()
         elif not ket or not bra:
             B = other.ansatz.batch_dims - other.ansatz._lin_sup
             C = other.ansatz.core_dims
-- 
2.43.0


From 6c3b4e76893d9c71ff94d425e2d147b8f4030b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 44/70] fix: sum of components with matrix parameters

---
 mrmustard/lab/circuit_components.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 49f964a..dd9ef75 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -815,6 +815,19 @@ class CircuitComponent:
     def _light_copy(self, wires: Wires | None = None) -> CircuitComponent:
         r"""
         Creates a "light" copy of this component by referencing its __dict__, except for the wires,
+    def _has_stacked_parameters(self) -> bool:
+        r"""
+        Whether the parameters alone determine the ansatz and, if this component is a linear
+        superposition, have one entry per term.
+        """
+        if not set(self.ansatz._kwargs) <= set(self.parameters.names):
+            return False
+        if not self.ansatz._lin_sup:
+            return True
+        terms = self.ansatz.batch_shape[-1:]
+        params = (getattr(self.parameters, name) for name in self.ansatz._kwargs)
+        return all(tuple(param.value.shape[:1]) == tuple(terms) for param in params)
+
         which are a new object or the given one.
         This is useful when one needs the same component acting on different modes, for example.
         """
@@ -910,6 +923,8 @@ class CircuitComponent:
         ):
             new_params = {}
             for name in self.ansatz._kwargs:
+            and self._has_stacked_parameters()
+            and other._has_stacked_parameters()
                 self_param = getattr(self.parameters, name)
                 other_param = getattr(other.parameters, name)
                 if (self_type := type(self_param)) is not (other_type := type(other_param)):
@@ -927,8 +942,9 @@ class CircuitComponent:
                         )
                     new_params[name + "_trainable"] = True
                     new_params[name + "_bounds"] = self_param.bounds
-                self_val = math.atleast_nd(self_param.value, 1)
-                other_val = math.atleast_nd(other_param.value, 1)
+                # parameters can be arrays (e.g. symplectic matrices): stack along a leading axis
+                self_val = self_param.value if self.ansatz._lin_sup else self_param.value[None]
+                other_val = other_param.value if other.ansatz._lin_sup else other_param.value[None]
                 new_params[name] = math.concat((self_val, other_val), axis=0)
             ret = self.__class__(self.modes, **new_params)
             ret.ansatz._lin_sup = True
-- 
2.43.0


From 2f01c2ce9a863ccf6704e0cbf908b21d486df8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 45/70] fix: phase noise overwrote its operand and dephased the
 wrong wires of channels and relabelled modes

---
 mrmustard/lab/transformations/phasenoise.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mrmustard/lab/transformations/phasenoise.py b/mrmustard/lab/transformations/phasenoise.py
index 418b08d..09e6868 100644
--- a/mrmustard/lab/transformations/phasenoise.py
+++ b/mrmustard/lab/transformations/phasenoise.py
@@ -96,16 +96,18 @@ class PhaseNoise(Channel):
             other = other.contract(other.adjoint, "zip")
         other = other.to_fock()
         array = other.fock_array()
-        mode_indices = np.indices(other.ansatz.core_shape)
+        indices = np.indices(other.ansatz.core_shape)
+        out_bra, out_ket = other.wires.output.bra, other.wires.output.ket
         for mode in self.modes:
+            if mode not in out_bra.modes or mode not in out_ket.modes:
+                raise ValueError(f"Cannot apply {self.name} on mode {mode} of {other}.")
+            bra, ket = out_bra[mode].indices[0], out_ket[mode].indices[0]
             phase_factors = math.exp(
-                -0.5
-                * (mode_indices[mode] - mode_indices[other.n_modes + mode]) ** 2
-                * self.parameters.phase_stdev.value**2,
+                -0.5 * (indices[bra] - indices[ket]) ** 2 * self.parameters.phase_stdev.value**2,
             )
-            array *= phase_factors
+            array = array * phase_factors
         return CircuitComponent._from_attributes(
             ArrayAnsatz(array, batch_dims=other.ansatz.batch_dims),
-            other.wires,
+            other.wires.copy(),
             self.name,
         )
-- 
2.43.0


From 00ca5f8022a6a4592edef93d780cd6e322e49221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 46/70] fix: orthogonal, symplectic and unitary variables from
 a given matrix

---
 mrmustard/math/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/math/parameters.py b/mrmustard/math/parameters.py
index 59a1b58..67144db 100644
--- a/mrmustard/math/parameters.py
+++ b/mrmustard/math/parameters.py
@@ -265,7 +265,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for orthogonal optimization.
         """
-        value = value or math.random_orthogonal(N)
+        value = math.random_orthogonal(N) if value is None else value
         return Variable(value, name, bounds, "update_orthogonal")
 
     @staticmethod
@@ -289,7 +289,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for simplectic optimization.
         """
-        value = value or math.random_symplectic(N)
+        value = math.random_symplectic(N) if value is None else value
         return Variable(value, name, bounds, "update_symplectic")
 
     @staticmethod
@@ -313,7 +313,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for unitary optimization.
         """
-        value = value or math.random_unitary(N)
+        value = math.random_unitary(N) if value is None else value
         return Variable(value, name, bounds, "update_unitary")
 
     def _tree_flatten(self):  # pragma: no cover
-- 
2.43.0


From 76a0783359dd26776ad00530c601e5e112ec5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 47/70] fix: circuits with count or flag arguments, phase noise
 or trainable damping could not be trained

---
 mrmustard/lab/circuit_components.py          | 13 ++++++++-----
 mrmustard/lab/transformations/fockdamping.py |  1 -
 mrmustard/physics/ansatz/array_ansatz.py     |  5 ++++-
 mrmustard/physics/ansatz/base.py             | 12 +++++++++++-
 mrmustard/physics/ansatz/polyexp_ansatz.py   |  5 ++++-
 mrmustard/physics/triples.py                 |  5 +++--
 6 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index dd9ef75..b6ebaf2 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -384,6 +384,9 @@ class CircuitComponent:
         ret._parameters, ret._ansatz = children
         ret._wires, ret._name = aux_data
 
+        if ret._ansatz is None:
+            return ret
+
         # make sure the ansatz parameters match the parameter set
         for param_name, param in ret.ansatz._kwargs.items():
             if isinstance(param, Variable):
@@ -812,9 +815,6 @@ class CircuitComponent:
             raise ValueError(f"Expected Fock shape of length {num_vars}, got {len(shape)}")
         return shape
 
-    def _light_copy(self, wires: Wires | None = None) -> CircuitComponent:
-        r"""
-        Creates a "light" copy of this component by referencing its __dict__, except for the wires,
     def _has_stacked_parameters(self) -> bool:
         r"""
         Whether the parameters alone determine the ansatz and, if this component is a linear
@@ -828,6 +828,9 @@ class CircuitComponent:
         params = (getattr(self.parameters, name) for name in self.ansatz._kwargs)
         return all(tuple(param.value.shape[:1]) == tuple(terms) for param in params)
 
+    def _light_copy(self, wires: Wires | None = None) -> CircuitComponent:
+        r"""
+        Creates a "light" copy of this component by referencing its __dict__, except for the wires,
         which are a new object or the given one.
         This is useful when one needs the same component acting on different modes, for example.
         """
@@ -920,11 +923,11 @@ class CircuitComponent:
             isinstance(self.ansatz, PolyExpAnsatz)
             and self.ansatz._fn is not None
             and self.ansatz._fn == other.ansatz._fn
+            and self._has_stacked_parameters()
+            and other._has_stacked_parameters()
         ):
             new_params = {}
             for name in self.ansatz._kwargs:
-            and self._has_stacked_parameters()
-            and other._has_stacked_parameters()
                 self_param = getattr(self.parameters, name)
                 other_param = getattr(other.parameters, name)
                 if (self_type := type(self_param)) is not (other_type := type(other_param)):
diff --git a/mrmustard/lab/transformations/fockdamping.py b/mrmustard/lab/transformations/fockdamping.py
index b0aebf7..fade9bc 100644
--- a/mrmustard/lab/transformations/fockdamping.py
+++ b/mrmustard/lab/transformations/fockdamping.py
@@ -82,7 +82,6 @@ class FockDamping(Operation):
                 damping,
                 "damping",
                 damping_bounds,
-                None,
                 dtype=math.float64,
             ),
         )
diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index f17b294..6df782b 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -145,15 +145,18 @@ class ArrayAnsatz(Ansatz):
     @classmethod
     def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
         ret = cls.__new__(cls)
-        (ret._kwargs,) = children
+        (params,) = children
         (
             ret._batch_shape,
             ret._lin_sup,
             ret._fn,
+            static,
             ret._array,
             ret._original_abc_data,
             ret._batch_dims,
         ) = aux_data
+        ret._kwargs = params | static
+        ret._static_names = set(static)
         return ret
 
     def contract(
diff --git a/mrmustard/physics/ansatz/base.py b/mrmustard/physics/ansatz/base.py
index d207d55..a68666a 100644
--- a/mrmustard/physics/ansatz/base.py
+++ b/mrmustard/physics/ansatz/base.py
@@ -24,6 +24,7 @@ from typing import Any
 
 from numpy.typing import ArrayLike
 
+from mrmustard.math.parameters import Constant, Variable
 from mrmustard.utils.typing import (
     Batch,
     ComplexMatrix,
@@ -47,6 +48,7 @@ class Ansatz(ABC):
         self._batch_shape = ()
         self._fn = None
         self._kwargs = {}
+        self._static_names = None
 
     @property
     @abstractmethod
@@ -195,11 +197,19 @@ class Ansatz(ABC):
         """
 
     def _tree_flatten(self):  # pragma: no cover
-        children = (self._kwargs,)
+        # only parameters are leaves, other arguments (e.g. counts and flags) are static
+        names = self._static_names
+        if names is None:
+            is_param = {k: isinstance(v, Constant | Variable) for k, v in self._kwargs.items()}
+            names = {k for k, v in is_param.items() if not v}
+        params = {k: v for k, v in self._kwargs.items() if k not in names}
+        static = {k: v for k, v in self._kwargs.items() if k in names}
+        children = (params,)
         aux_data = (
             self._batch_shape,
             self._lin_sup,
             self._fn,
+            static,
         )
         return (children, aux_data)
 
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index ca84c13..f0de5fb 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -293,17 +293,20 @@ class PolyExpAnsatz(Ansatz):
     @classmethod
     def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
         ret = cls.__new__(cls)
-        (ret._kwargs,) = children
+        (params,) = children
         (
             ret._batch_shape,
             ret._lin_sup,
             ret._fn,
+            static,
             ret._A,
             ret._b,
             ret._c,
             ret._simplified,
             ret.name,
         ) = aux_data
+        ret._kwargs = params | static
+        ret._static_names = set(static)
         return ret
 
     def contract(
diff --git a/mrmustard/physics/triples.py b/mrmustard/physics/triples.py
index f9ea984..f6d8ae4 100644
--- a/mrmustard/physics/triples.py
+++ b/mrmustard/physics/triples.py
@@ -303,6 +303,7 @@ def sauron_state_Abc(n: int, epsilon: float) -> tuple[ComplexMatrix, ComplexVect
         The ``(A, b, c)`` triple of the sauron state.
     """
 
+    n, epsilon = int(n), float(epsilon)
     phases = np.linspace(0, 2 * np.pi * (1 - 1 / (n + 1)), n + 1)
     cs = np.exp(1j * phases)
     bs = (epsilon * cs)[..., None]
@@ -315,8 +316,8 @@ def sauron_state_Abc(n: int, epsilon: float) -> tuple[ComplexMatrix, ComplexVect
         [0],
         [0],
     )[2]
-    prob = np.sum(probs)
-    cs /= np.sqrt(prob)
+    prob = math.sum(probs)
+    cs = cs / math.sqrt(prob)
 
     return As, bs, cs
 
-- 
2.43.0


From f4ee49aeb4f6b540b59d2fe11e7bcfcb59759def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 48/70] fix: a compiled function could not be called with two
 components with constant arrays, or ignored their Fock shapes

---
 mrmustard/lab/circuit_components.py        |  6 ++-
 mrmustard/math/parameters.py               |  5 +-
 mrmustard/physics/ansatz/array_ansatz.py   |  8 ++--
 mrmustard/physics/ansatz/polyexp_ansatz.py |  8 ++--
 mrmustard/utils/static.py                  | 55 ++++++++++++++++++++++
 5 files changed, 71 insertions(+), 11 deletions(-)
 create mode 100644 mrmustard/utils/static.py

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index b6ebaf2..331ab2d 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -382,7 +382,8 @@ class CircuitComponent:
     def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
         ret = cls.__new__(cls)
         ret._parameters, ret._ansatz = children
-        ret._wires, ret._name = aux_data
+        wires, ret._name, _ = aux_data
+        ret._wires = wires.copy()
 
         if ret._ansatz is None:
             return ret
@@ -909,7 +910,8 @@ class CircuitComponent:
 
     def _tree_flatten(self):  # pragma: no cover
         children = (self.parameters, self.ansatz)
-        aux_data = (self.wires, self.name)
+        # the shape is not part of the comparison of wires
+        aux_data = (self.wires.copy(), self.name, self.manual_shape)
         return (children, aux_data)
 
     def __add__(self, other: CircuitComponent) -> CircuitComponent:
diff --git a/mrmustard/math/parameters.py b/mrmustard/math/parameters.py
index 67144db..5b6af03 100644
--- a/mrmustard/math/parameters.py
+++ b/mrmustard/math/parameters.py
@@ -21,6 +21,7 @@ from typing import Any, Literal
 import numpy as np
 
 from mrmustard.math.backend_manager import BackendManager
+from mrmustard.utils.static import StaticArrays
 
 math = BackendManager()
 
@@ -153,12 +154,12 @@ class Constant:
     @classmethod
     def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
         ret = cls.__new__(cls)
-        ret._value, ret._name = aux_data
+        (ret._value,), ret._name = aux_data
         return ret
 
     def _tree_flatten(self):  # pragma: no cover
         children = ()
-        aux_data = (self.value, self.name)
+        aux_data = (StaticArrays((self.value,)), self.name)
         return (children, aux_data)
 
     def __mul__(self, value):
diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 6df782b..bd4fed9 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -28,6 +28,7 @@ from numpy.typing import ArrayLike
 
 from mrmustard import math, settings, widgets
 from mrmustard.math.parameters import Variable
+from mrmustard.utils.static import StaticArrays
 from mrmustard.utils.typing import Batch, Scalar, Tensor
 
 from .base import Ansatz
@@ -151,10 +152,10 @@ class ArrayAnsatz(Ansatz):
             ret._lin_sup,
             ret._fn,
             static,
-            ret._array,
-            ret._original_abc_data,
+            (ret._array, *abc_data),
             ret._batch_dims,
         ) = aux_data
+        ret._original_abc_data = tuple(abc_data) if abc_data else None
         ret._kwargs = params | static
         ret._static_names = set(static)
         return ret
@@ -347,7 +348,8 @@ class ArrayAnsatz(Ansatz):
 
     def _tree_flatten(self):  # pragma: no cover
         children, aux_data = super()._tree_flatten()
-        aux_data += (self._array, self._original_abc_data, self._batch_dims)
+        arrays = (self._array, *(self._original_abc_data or ()))
+        aux_data += (StaticArrays(arrays), self._batch_dims)
         return (children, aux_data)
 
     def __add__(self, other: ArrayAnsatz) -> ArrayAnsatz:
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index f0de5fb..c32ceb0 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -36,6 +36,7 @@ from mrmustard.physics.gaussian_integrals import (
 )
 from mrmustard.physics.utils import generate_batch_str, verify_batch_triple
 from mrmustard.utils.argsort import argsort_gen
+from mrmustard.utils.static import StaticArrays
 from mrmustard.utils.typing import (
     Batch,
     ComplexMatrix,
@@ -299,9 +300,7 @@ class PolyExpAnsatz(Ansatz):
             ret._lin_sup,
             ret._fn,
             static,
-            ret._A,
-            ret._b,
-            ret._c,
+            (ret._A, ret._b, ret._c),
             ret._simplified,
             ret.name,
         ) = aux_data
@@ -842,7 +841,8 @@ class PolyExpAnsatz(Ansatz):
 
     def _tree_flatten(self):  # pragma: no cover
         children, aux_data = super()._tree_flatten()
-        aux_data += (self._A, self._b, self._c, self._simplified, self.name)
+        arrays = StaticArrays((self._A, self._b, self._c))
+        aux_data += (arrays, self._simplified, self.name)
         return (children, aux_data)
 
     def __add__(self, other: PolyExpAnsatz) -> PolyExpAnsatz:
diff --git a/mrmustard/utils/static.py b/mrmustard/utils/static.py
new file mode 100644
index 0000000..7901840
--- /dev/null
+++ b/mrmustard/utils/static.py
@@ -0,0 +1,55 @@
+# Copyright 2025 Xanadu Quantum Technologies Inc.
+
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+
+#     http://www.apache.org/licenses/LICENSE-2.0
+
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+"""
+This module contains a container for the arrays stored in the static data of a PyTree.
+"""
+
+from __future__ import annotations
+
+import numpy as np
+
+__all__ = ["StaticArrays"]
+
+
+class StaticArrays(tuple):
+    r"""
+    A tuple of arrays (or ``None``) that can be compared, as needed by the static data of a PyTree.
+    """
+
+    __slots__ = ()
+
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, StaticArrays) or len(self) != len(other):
+            return False
+        return all(_equal(x, y) for x, y in zip(self, other))
+
+    def __ne__(self, other: object) -> bool:
+        return not self == other
+
+    def __hash__(self) -> int:
+        return hash(tuple(np.shape(x) for x in self))
+
+
+def _equal(x, y) -> bool:
+    if x is y:
+        return True
+    if x is None or y is None or np.shape(x) != np.shape(y):
+        return False
+    if getattr(x, "dtype", None) != getattr(y, "dtype", None):
+        return False
+    try:
+        return bool(np.array_equal(x, y))
+    except Exception:  # noqa: BLE001
+        return False  # arrays without a concrete value
-- 
2.43.0


From 46f2d27384658cd5f85add54fa00f46e03982fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 49/70] fix: quadratures, traces and sums of Fock arrays inside
 compiled functions

---
 mrmustard/lab/circuit_components.py        | 2 +-
 mrmustard/physics/ansatz/array_ansatz.py   | 4 ++--
 mrmustard/physics/ansatz/polyexp_ansatz.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 331ab2d..24b77fa 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -656,7 +656,7 @@ class CircuitComponent:
             self.ansatz.batch_shape[:-1] if self.ansatz._lin_sup else self.ansatz.batch_shape
         )
         batch_dims = len(batch_shape)
-        size = int(math.prod(ret.shape[:-batch_dims] if batch_shape else ret.shape))
+        size = int(np.prod(ret.shape[:-batch_dims] if batch_shape else ret.shape))
         return math.reshape(ret, (size, *batch_shape))
 
     def quadrature_triple(
diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index bd4fed9..5ccbdd4 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -315,7 +315,7 @@ class ArrayAnsatz(Ansatz):
                 slices[-len(idx_z) + i] = slice(0, min_dim)
         new_array = new_array[tuple(slices)]
 
-        n = math.prod(new_array.shape[-len(idx_zconj) :])
+        n = int(np.prod(new_array.shape[-len(idx_zconj) :]))
         new_array = math.reshape(new_array, (*new_array.shape[: -2 * len(idx_z)], n, n))
         trace = math.trace(new_array)
         return ArrayAnsatz(trace, self.batch_dims)
@@ -361,7 +361,7 @@ class ArrayAnsatz(Ansatz):
         if self.batch_dims != other.batch_dims:
             raise ValueError("Batch dimensions must match.")
         if self.core_shape != other.core_shape:
-            if math.prod(self.core_shape) > math.prod(other.core_shape):
+            if np.prod(self.core_shape) > np.prod(other.core_shape):
                 self_array = self.array
                 other_array = other.reduce(self.core_shape).array
             else:
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index c32ceb0..ac31cef 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -459,7 +459,7 @@ class PolyExpAnsatz(Ansatz):
             shape=poly_shape,
         )
 
-        derived_vars_size = int(math.prod(self.shape_derived_vars))
+        derived_vars_size = int(np.prod(self.shape_derived_vars))
         poly_core = math.reshape(
             poly_core,
             batch_shape + pulled_out_input_shape + (derived_vars_size,),
-- 
2.43.0


From aca185ba96d922f04cab2abaecc023d65ebe8a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:23 +0000
Subject: [PATCH 50/70] fix: vacuum in Fock representation became a Bargmann
 vacuum when rebuilt from its leaves

---
 mrmustard/lab/states/vacuum.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/mrmustard/lab/states/vacuum.py b/mrmustard/lab/states/vacuum.py
index 433a45d..531a843 100644
--- a/mrmustard/lab/states/vacuum.py
+++ b/mrmustard/lab/states/vacuum.py
@@ -71,16 +71,6 @@ class Vacuum(Ket):
 
         self.manual_shape = (1,) * len(modes)
 
-    @classmethod
-    def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
-        (modes,) = aux_data
-        return cls(modes)
-
-    def _tree_flatten(self):  # pragma: no cover
-        children = ()
-        aux_data = (self.modes,)
-        return (children, aux_data)
-
     def __getitem__(self, idx: int | Collection[int]) -> Vacuum:
         idx = (idx,) if isinstance(idx, int) else idx
         if not set(idx).issubset(set(self.modes)):
-- 
2.43.0


From a5838325ed5c692f96c35ba11c1acd8604e8856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:05 +0000
Subject: [PATCH 51/70] fix: physical stellar decomposition of kets with
 complex or unsqueezed core modes

---
 mrmustard/lab/states/ket.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/lab/states/ket.py b/mrmustard/lab/states/ket.py
index 593b7b3..b817fc9 100644
--- a/mrmustard/lab/states/ket.py
+++ b/mrmustard/lab/states/ket.py
@@ -487,9 +487,9 @@ class Ket(State):
         bu_in = -math.einsum(
             "...ij,...jk,...k->...i",
             math.conj(Am),
-            gamma_inv_T,
+            gamma_inv,
             bm,
-        ) - math.einsum("...ij,...j->...i", gamma_inv, math.conj(bm))
+        ) - math.einsum("...ij,...j->...i", gamma_inv_T, math.conj(bm))
         bu = math.concat([bm, bu_in], -1)
         cu = math.ones(batch_shape, dtype=math.complex128)
         U = Unitary.from_bargmann(core_modes, core_modes, (Au, bu, cu))
@@ -502,7 +502,7 @@ class Ket(State):
         A_core = math.block(
             [
                 [math.zeros((*batch_shape, M, M), dtype=math.complex128), gamma_inv @ R_T],
-                [R @ gamma_inv_T, An + R @ math.inv(math.inv(math.conj(Am)) - Am) @ R_T],
+                [R @ gamma_inv_T, An + R @ math.conj(Am) @ math.inv(gamma_squared) @ R_T],
             ],
         )
 
-- 
2.43.0


From 76555ffd804cd64011ae1894713b9e230498dadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:05 +0000
Subject: [PATCH 52/70] fix: mixed stellar decomposition of density matrices
 with an unequal number of core modes

---
 mrmustard/lab/states/dm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index 5cdcfcc..744a5c8 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -702,8 +702,8 @@ class DM(State):
         bm = b[..., : 2 * M]
         bn = b[..., 2 * M :]
 
-        sigma = R[..., M:, :M]
-        r = R[..., M:, M:]
+        sigma = R[..., N:, :M]
+        r = R[..., N:, M:]
         alpha_m = Am[..., M:, :M]
         alpha_n = An[..., N:, :N]
         a_n = An[..., N:, N:]
@@ -739,8 +739,7 @@ class DM(State):
             math.sqrt(r_c_evals[..., -M:], dtype=math.complex128),
         )
         Os_NM = math.zeros((*batch_shape, N, M), dtype=math.complex128)
-        Os_MN = math.zeros((*batch_shape, M, N), dtype=math.complex128)
-        R_c = math.block([[math.conj(r_c), Os_NM], [Os_MN, r_c]])
+        R_c = math.block([[math.conj(r_c), Os_NM], [Os_NM, r_c]])
         R_c_transpose = math.einsum("...ij->...ji", R_c)
 
         Aphi_out = Am
-- 
2.43.0


From 7c75128ac9767e82d64ea6b01c6b9058d0972c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 53/70] fix: physicality tests accepted non-Hermitian, negative
 or unnormalizable states and channels, and rejected squeezed states and
 replacement channels

---
 mrmustard/lab/states/dm.py            | 29 +++++++++++---------
 mrmustard/lab/states/ket.py           |  4 ++-
 mrmustard/lab/transformations/base.py | 39 ++++++++++++---------------
 mrmustard/physics/bargmann_utils.py   | 25 +++++++++++++++++
 4 files changed, 61 insertions(+), 36 deletions(-)

diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index 744a5c8..d051197 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -25,7 +25,10 @@ from IPython.display import display
 
 from mrmustard import math, settings, widgets
 from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
-from mrmustard.physics.bargmann_utils import wigner_to_bargmann_rho
+from mrmustard.physics.bargmann_utils import (
+    is_hermitian_positive_triple,
+    wigner_to_bargmann_rho,
+)
 from mrmustard.physics.fock_utils import fidelity as fock_dm_fidelity
 from mrmustard.physics.gaussian import fidelity as gaussian_fidelity
 from mrmustard.physics.gaussian_integrals import complex_gaussian_integral_2
@@ -74,17 +77,7 @@ class DM(State):
             raise NotImplementedError(
                 "Physicality conditions are not implemented for states with ArrayAnsatz.",
             )
-        A = self.ansatz.A
-        m = A.shape[-1] // 2
-        gamma_A = A[..., :m, m:]
-
-        if (
-            math.real(math.norm(gamma_A - math.conj(math.einsum("...ij->...ji", gamma_A))))
-            > settings.ATOL
-        ):  # checks if gamma_A is Hermitian
-            return False
-
-        return math.all(math.real(math.eigvals(gamma_A)) >= -settings.ATOL)
+        return is_hermitian_positive_triple(*self.ansatz.triple)
 
     @property
     def is_physical(self) -> bool:
@@ -96,7 +89,17 @@ class DM(State):
             >>> from mrmustard.lab import DM
             >>> assert DM.random([0]).is_physical
         """
-        return self.is_positive and math.allclose(self.probability, 1, settings.ATOL)
+        if not self.is_positive:
+            return False
+        A = self.ansatz.A
+        identity = math.eye(A.shape[-1], dtype=A.dtype)
+        evals = math.eigvals(identity - math.Xmat(self.n_modes) @ A)
+        # a positive operator has finite trace if the Gaussian integral that traces it converges
+        return bool(math.all(math.real(evals) > 0)) and math.allclose(
+            self.probability,
+            1,
+            settings.ATOL,
+        )
 
     @property
     def probability(self) -> float:
diff --git a/mrmustard/lab/states/ket.py b/mrmustard/lab/states/ket.py
index b817fc9..9a022be 100644
--- a/mrmustard/lab/states/ket.py
+++ b/mrmustard/lab/states/ket.py
@@ -81,7 +81,9 @@ class Ket(State):
             raise NotImplementedError(
                 "Physicality conditions are not implemented for states with ArrayAnsatz.",
             )
-        return math.all(math.abs(math.eigvals(self.ansatz.A)) < 1) and math.allclose(
+        A = self.ansatz.A
+        # the state can be normalized if the singular values of A are less than one
+        return bool(math.all(math.real(math.eigvals(A @ math.conj(A))) < 1)) and math.allclose(
             self.probability,
             1,
             settings.ATOL,
diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 346357e..a8a1415 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -29,7 +29,12 @@ from collections.abc import Sequence
 
 from mrmustard import math, settings
 from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
-from mrmustard.physics.bargmann_utils import XY_of_channel, au2Symplectic, symplectic2Au
+from mrmustard.physics.bargmann_utils import (
+    XY_of_channel,
+    au2Symplectic,
+    is_hermitian_positive_triple,
+    symplectic2Au,
+)
 from mrmustard.physics.triples import XY_to_channel_Abc
 from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import ComplexMatrix, ComplexTensor, RealMatrix, Vector
@@ -396,17 +401,7 @@ class Channel(Map):
             raise NotImplementedError(
                 "Physicality conditions are not implemented for states with ArrayAnsatz.",
             )
-        A = self.ansatz.A
-        m = A.shape[-1] // 2
-        gamma_A = A[..., :m, m:]
-
-        if (
-            math.real(math.norm(gamma_A - math.conj(math.einsum("...ij->...ji", gamma_A))))
-            > settings.ATOL
-        ):  # checks if gamma_A is Hermitian
-            return False
-
-        return math.all(math.real(math.eigvals(gamma_A)) > -settings.ATOL)
+        return is_hermitian_positive_triple(*self.ansatz.triple)
 
     @property
     def is_TP(self) -> bool:
@@ -432,17 +427,17 @@ class Channel(Map):
             raise NotImplementedError(
                 "Physicality conditions are not implemented for states with ArrayAnsatz.",
             )
-        A = self.ansatz.A
-        m = A.shape[-1] // 2
-        gamma_A = A[..., :m, m:]
-        lambda_A = A[..., m:, m:]
-        temp_A = (
-            gamma_A
-            + math.conj(math.einsum("...ij->...ji", lambda_A))
-            @ math.inv(math.eye(m) - math.einsum("...ij->...ji", gamma_A))
-            @ lambda_A
+        traced = self.ansatz.trace(
+            self.wires.output.bra.indices,
+            self.wires.output.ket.indices,
+        )
+        A, b, c = traced.triple
+        # tracing the output must be the same as tracing the input
+        return (
+            math.allclose(A, math.Xmat(A.shape[-1] // 2), settings.ATOL)
+            and math.allclose(b, math.zeros_like(b), settings.ATOL)
+            and math.allclose(c, math.ones_like(c), settings.ATOL)
         )
-        return math.all(math.real(math.norm(temp_A - math.eye(m))) < settings.ATOL)
 
     @property
     def is_physical(self) -> bool:
diff --git a/mrmustard/physics/bargmann_utils.py b/mrmustard/physics/bargmann_utils.py
index 0b14189..ed6ebc2 100644
--- a/mrmustard/physics/bargmann_utils.py
+++ b/mrmustard/physics/bargmann_utils.py
@@ -173,6 +173,31 @@ def symplectic2Au(S):
     return math.block([[A_1, A_2], [A_3, A_4]])
 
 
+def is_hermitian_positive_triple(A: ComplexMatrix, b: Vector, c: Scalar) -> bool:
+    r"""
+    Whether triples with variables ordered as (bra, ket) are the kernels of Hermitian, positive
+    operators.
+
+    The kernel is Hermitian if swapping the bra and ket variables conjugates it. It is then positive
+    if the block of ``A`` that mixes bra and ket variables is positive and ``c`` is not negative.
+
+    Args:
+        A: The A matrix (or matrices).
+        b: The b vector (or vectors).
+        c: The c coefficient(s).
+    """
+    m = A.shape[-1] // 2
+    gamma = A[..., :m, m:]
+    swapped_A = math.block([[A[..., m:, m:], A[..., m:, :m]], [A[..., :m, m:], A[..., :m, :m]]])
+    swapped_b = math.concat([b[..., m:], b[..., :m]], -1)
+    return (
+        math.allclose(math.conj(swapped_A), A, settings.ATOL)
+        and math.allclose(math.conj(swapped_b), b, settings.ATOL)
+        and math.allclose(math.abs(c), c, settings.ATOL)
+        and bool(math.all(math.real(math.eigvals(gamma)) >= -settings.ATOL))
+    )
+
+
 def XY_of_channel(A: ComplexMatrix):
     r"""
     Outputting the X and Y matrices corresponding to a channel determined by the "A"
-- 
2.43.0


From eef69421f87ff788ee18130830535b4e70d2b01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 54/70] fix: entropies, symplectic eigenvalues and photon
 numbers of batches mixed up the batch entries

---
 mrmustard/physics/gaussian.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrmustard/physics/gaussian.py b/mrmustard/physics/gaussian.py
index 943e4f7..cecc9b8 100644
--- a/mrmustard/physics/gaussian.py
+++ b/mrmustard/physics/gaussian.py
@@ -34,10 +34,10 @@ def number_means(cov: Matrix, means: Vector) -> Vector:
     """
     N = means.shape[-1] // 2
     return (
-        means[:N] ** 2
-        + means[N:] ** 2
-        + math.diag_part(cov[:N, :N])
-        + math.diag_part(cov[N:, N:])
+        means[..., :N] ** 2
+        + means[..., N:] ** 2
+        + math.diag_part(cov[..., :N, :N])
+        + math.diag_part(cov[..., N:, N:])
         - settings.HBAR
     ) / (2 * settings.HBAR)
 
@@ -69,7 +69,7 @@ def symplectic_eigenvals(cov: Matrix) -> Vector:
     M = math.matmul(1j * J, cov * (2 / settings.HBAR))
     vals = math.abs(math.eigvals(M))  # compute the eigenspectrum
     vals = math.sort(vals)
-    return vals[::2]  # return the even eigenvalues
+    return vals[..., ::2]  # return the even eigenvalues
 
 
 def von_neumann_entropy(cov: Matrix) -> float:
@@ -90,7 +90,7 @@ def von_neumann_entropy(cov: Matrix) -> float:
         return math.xlogy((x + 1) / 2, (x + 1) / 2) - math.xlogy((x - 1) / 2, (x - 1) / 2 + 1e-9)
 
     symp_vals = symplectic_eigenvals(cov)
-    return math.sum(g(symp_vals))
+    return math.sum(g(symp_vals), axis=-1)
 
 
 def fidelity(mu1: Vector, cov1: Matrix, mu2: Vector, cov2: Matrix) -> float:
-- 
2.43.0


From 7097690d966da6336acb38c66d26191e412b83e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 55/70] fix: repeated, unsorted or too many modes, arrays of
 the wrong size and malformed index lists were accepted silently

---
 mrmustard/lab/circuit_components.py           | 10 +--
 .../lab/circuit_components_utils/b_to_ch.py   |  4 +-
 .../lab/circuit_components_utils/b_to_ps.py   |  4 +-
 .../lab/circuit_components_utils/b_to_q.py    |  4 +-
 .../lab/circuit_components_utils/trace_out.py |  3 +-
 mrmustard/lab/states/bargmann_eigenstate.py   |  4 +-
 mrmustard/lab/states/coherent.py              |  4 +-
 mrmustard/lab/states/displaced_squeezed.py    |  4 +-
 mrmustard/lab/states/dm.py                    | 14 ++--
 mrmustard/lab/states/gaussian_state.py        |  8 ++-
 mrmustard/lab/states/ket.py                   | 15 ++--
 mrmustard/lab/states/number.py                |  4 +-
 mrmustard/lab/states/quadrature_eigenstate.py |  4 +-
 mrmustard/lab/states/sauron.py                |  4 +-
 mrmustard/lab/states/squeezed_vacuum.py       |  4 +-
 mrmustard/lab/states/thermal.py               |  4 +-
 .../lab/states/two_mode_squeezed_vacuum.py    |  3 +-
 mrmustard/lab/states/vacuum.py                |  3 +-
 mrmustard/lab/transformations/amplifier.py    |  4 +-
 mrmustard/lab/transformations/attenuator.py   |  4 +-
 mrmustard/lab/transformations/base.py         | 25 +++----
 mrmustard/lab/transformations/bsgate.py       |  3 +-
 mrmustard/lab/transformations/cxgate.py       |  3 +-
 mrmustard/lab/transformations/czgate.py       |  3 +-
 mrmustard/lab/transformations/dgate.py        |  4 +-
 mrmustard/lab/transformations/fockdamping.py  |  4 +-
 .../lab/transformations/gaussrandnoise.py     |  4 +-
 mrmustard/lab/transformations/ggate.py        |  5 +-
 mrmustard/lab/transformations/identity.py     |  3 +-
 .../lab/transformations/interferometer.py     |  4 +-
 mrmustard/lab/transformations/mzgate.py       |  3 +-
 mrmustard/lab/transformations/pgate.py        |  4 +-
 mrmustard/lab/transformations/phasenoise.py   |  4 +-
 .../lab/transformations/realinterferometer.py |  4 +-
 mrmustard/lab/transformations/rgate.py        |  4 +-
 mrmustard/lab/transformations/s2gate.py       |  3 +-
 mrmustard/lab/transformations/sgate.py        |  4 +-
 mrmustard/lab/utils.py                        | 70 ++++++++++++++++++-
 mrmustard/physics/ansatz/polyexp_ansatz.py    |  6 ++
 mrmustard/physics/utils.py                    |  3 +
 40 files changed, 175 insertions(+), 96 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 24b77fa..e2e3744 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -47,6 +47,8 @@ from mrmustard.utils.typing import (
     Scalar,
 )
 
+from .utils import check_modes
+
 __all__ = ["CircuitComponent"]
 
 
@@ -572,7 +574,7 @@ class CircuitComponent:
             ValueError: If the component's wires are not all defined on the same modes or if the
             length of the given modes is different from the length of the original modes.
         """
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes)
         ob = self.wires.output.bra.modes
         ib = self.wires.input.bra.modes
         ok = self.wires.output.ket.modes
@@ -799,7 +801,7 @@ class CircuitComponent:
             The shape of the Fock representation of this component.
 
         Raises:
-            ValueError: If the shape either contains 0 or is not the correct length.
+            ValueError: If the shape is not positive or is not the correct length.
         """
         shape = shape if shape is not None else self.auto_shape()
         num_vars = (
@@ -810,8 +812,8 @@ class CircuitComponent:
         if isinstance(shape, int | math.int64):
             shape = (shape,) * num_vars
         shape = tuple(shape)
-        if 0 in shape:
-            raise ValueError(f"Expected a non-zero Fock shape, got {shape}.")
+        if any(s < 1 for s in shape):
+            raise ValueError(f"Expected a positive, non-zero Fock shape, got {shape}.")
         if len(shape) != num_vars:
             raise ValueError(f"Expected Fock shape of length {num_vars}, got {len(shape)}")
         return shape
diff --git a/mrmustard/lab/circuit_components_utils/b_to_ch.py b/mrmustard/lab/circuit_components_utils/b_to_ch.py
index 0feab00..0f971db 100644
--- a/mrmustard/lab/circuit_components_utils/b_to_ch.py
+++ b/mrmustard/lab/circuit_components_utils/b_to_ch.py
@@ -27,7 +27,7 @@ from mrmustard.utils.typing import ComplexTensor
 from ...physics.ansatz import PolyExpAnsatz
 from ...physics.wires import ReprEnum
 from ..transformations.base import Map
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 
 __all__ = ["BtoChar"]
 
@@ -80,7 +80,7 @@ class BtoChar(Map):
         modes: int | tuple[int, ...],
         s: float,
     ):
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes, in_order=False)
         super().__init__(name="BtoChar")
         self.parameters.add_parameter(make_parameter(False, s, "s", (None, None)))
         self._ansatz = PolyExpAnsatz.from_function(
diff --git a/mrmustard/lab/circuit_components_utils/b_to_ps.py b/mrmustard/lab/circuit_components_utils/b_to_ps.py
index 518a693..84f8141 100644
--- a/mrmustard/lab/circuit_components_utils/b_to_ps.py
+++ b/mrmustard/lab/circuit_components_utils/b_to_ps.py
@@ -27,7 +27,7 @@ from mrmustard.utils.typing import ComplexTensor
 from ...physics.ansatz import PolyExpAnsatz
 from ...physics.wires import ReprEnum
 from ..transformations.base import Map
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 
 __all__ = ["BtoPS"]
 
@@ -48,7 +48,7 @@ class BtoPS(Map):
         modes: int | tuple[int, ...],
         s: float,
     ):
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes, in_order=False)
         super().__init__(name="BtoPS")
         self.parameters.add_parameter(make_parameter(False, s, "s", (None, None)))
 
diff --git a/mrmustard/lab/circuit_components_utils/b_to_q.py b/mrmustard/lab/circuit_components_utils/b_to_q.py
index bc7bf9f..e524c75 100644
--- a/mrmustard/lab/circuit_components_utils/b_to_q.py
+++ b/mrmustard/lab/circuit_components_utils/b_to_q.py
@@ -27,7 +27,7 @@ from mrmustard.utils.typing import ComplexTensor
 from ...physics.ansatz import PolyExpAnsatz
 from ...physics.wires import ReprEnum
 from ..transformations.base import Operation
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 
 __all__ = ["BtoQ"]
 
@@ -62,7 +62,7 @@ class BtoQ(Operation):
         modes: int | tuple[int, ...],
         phi: float | Sequence[float] = 0.0,
     ):
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes, in_order=False)
         super().__init__(name="BtoQ")
         self.parameters.add_parameter(make_parameter(False, phi, "phi", (None, None)))
 
diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index 7ebd547..5632e66 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -23,6 +23,7 @@ from mrmustard.physics import triples
 from ...physics.ansatz import PolyExpAnsatz
 from ...physics.wires import Wires
 from ..circuit_components import CircuitComponent
+from ..utils import check_modes
 
 __all__ = ["TraceOut"]
 
@@ -66,7 +67,7 @@ class TraceOut(CircuitComponent):
         self,
         modes: int | tuple[int, ...],
     ):
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes, in_order=False)
         super().__init__(
             ansatz=PolyExpAnsatz.from_function(fn=triples.identity_Abc, n_modes=len(modes)),
             wires=Wires(set(), set(modes), set(), set(modes)),
diff --git a/mrmustard/lab/states/bargmann_eigenstate.py b/mrmustard/lab/states/bargmann_eigenstate.py
index b03c95f..3103267 100644
--- a/mrmustard/lab/states/bargmann_eigenstate.py
+++ b/mrmustard/lab/states/bargmann_eigenstate.py
@@ -25,7 +25,7 @@ from mrmustard.physics import triples
 from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .ket import Ket
 
 __all__ = ["BargmannEigenstate"]
@@ -67,7 +67,7 @@ class BargmannEigenstate(Ket):
         alpha_trainable: bool = False,
         alpha_bounds: tuple[complex | None, complex | None] = (None, None),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="BargmannEigenstate")
 
         self.parameters.add_parameter(
diff --git a/mrmustard/lab/states/coherent.py b/mrmustard/lab/states/coherent.py
index a7e4b93..4ac99f0 100644
--- a/mrmustard/lab/states/coherent.py
+++ b/mrmustard/lab/states/coherent.py
@@ -22,7 +22,7 @@ from collections.abc import Sequence
 
 from mrmustard import math
 from mrmustard.lab.states.ket import Ket
-from mrmustard.lab.utils import make_parameter
+from mrmustard.lab.utils import check_modes, make_parameter
 from mrmustard.physics import triples
 from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
@@ -87,7 +87,7 @@ class Coherent(Ket):
         alpha_trainable: bool = False,
         alpha_bounds: tuple[float | None, float | None] = (0, None),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="Coherent")
         self.parameters.add_parameter(
             make_parameter(alpha_trainable, alpha, "alpha", alpha_bounds, dtype=math.complex128),
diff --git a/mrmustard/lab/states/displaced_squeezed.py b/mrmustard/lab/states/displaced_squeezed.py
index 3a94d41..8f956e6 100644
--- a/mrmustard/lab/states/displaced_squeezed.py
+++ b/mrmustard/lab/states/displaced_squeezed.py
@@ -25,7 +25,7 @@ from mrmustard.physics import triples
 from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .ket import Ket
 
 __all__ = ["DisplacedSqueezed"]
@@ -73,7 +73,7 @@ class DisplacedSqueezed(Ket):
         r_bounds: tuple[float | None, float | None] = (None, None),
         phi_bounds: tuple[float | None, float | None] = (None, None),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="DisplacedSqueezed")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index d051197..1d634bf 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -39,7 +39,7 @@ from mrmustard.utils.typing import Batch, ComplexMatrix, ComplexTensor, ComplexV
 from ..circuit_components import CircuitComponent
 from ..circuit_components_utils import TraceOut
 from ..transformations import Channel, Dgate, Map
-from ..utils import shape_check
+from ..utils import check_ansatz, check_modes, shape_check
 from .base import OperatorType, State, _validate_operator
 
 __all__ = ["DM"]
@@ -133,13 +133,8 @@ class DM(State):
         ansatz: PolyExpAnsatz | ArrayAnsatz | None = None,
         name: str | None = None,
     ) -> State:
-        if not isinstance(modes, set) and sorted(modes) != list(modes):
-            raise ValueError(f"Modes must be sorted. got {modes}")
-        modes = set(modes)
-        if ansatz and ansatz.core_dims != 2 * len(modes):
-            raise ValueError(
-                f"Expected an ansatz with {2 * len(modes)} variables, found {ansatz.core_dims}.",
-            )
+        modes = check_modes(modes)
+        check_ansatz(ansatz, 2 * len(modes))
         wires = Wires(modes_out_bra=set(modes), modes_out_ket=set(modes))
         return DM(ansatz, wires, name=name)
 
@@ -477,6 +472,7 @@ class DM(State):
             >>> assert rho == core >> phi
             >>> assert (core >> Vacuum(1).dual).normalize() == Vacuum(0).dm()
         """
+        core_modes = check_modes(core_modes, subset_of=self.modes)
         other_modes = [m for m in self.modes if m not in core_modes]
         core_indices = self.wires[core_modes].indices
         other_indices = self.wires[other_modes].indices
@@ -556,6 +552,7 @@ class DM(State):
         """
         from .ket import Ket  # noqa: PLC0415
 
+        core_modes = check_modes(core_modes, subset_of=self.modes)
         other_modes = [m for m in self.modes if m not in core_modes]
         core_bra_indices = self.wires.bra[core_modes].indices
         core_ket_indices = self.wires.ket[core_modes].indices
@@ -682,6 +679,7 @@ class DM(State):
             >>> assert core.is_physical
             >>> assert (core >> Vacuum(1).dual).normalize() == Vacuum(0).dm()
         """
+        core_modes = check_modes(core_modes, subset_of=self.modes)
         other_modes = [m for m in self.modes if m not in core_modes]
         core_bra_indices = self.wires.bra[core_modes].indices
         core_ket_indices = self.wires.ket[core_modes].indices
diff --git a/mrmustard/lab/states/gaussian_state.py b/mrmustard/lab/states/gaussian_state.py
index c242c9f..7ebc3dc 100644
--- a/mrmustard/lab/states/gaussian_state.py
+++ b/mrmustard/lab/states/gaussian_state.py
@@ -27,7 +27,7 @@ from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import RealMatrix
 
 from ..circuit_components_utils import TraceOut
-from ..utils import make_parameter, reshape_params
+from ..utils import check_modes, check_symplectic, make_parameter, reshape_params
 from .dm import DM
 from .ket import Ket
 
@@ -74,7 +74,7 @@ class GKet(Ket):
         symplectic: RealMatrix = None,
         symplectic_trainable: bool = False,
     ) -> None:
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes)
         super().__init__(name="GKet")
         symplectic = symplectic if symplectic is not None else math.random_symplectic(len(modes))
         self.parameters.add_parameter(
@@ -86,6 +86,7 @@ class GKet(Ket):
                 update_fn="update_symplectic",
             ),
         )
+        check_symplectic(self.parameters.symplectic.value, len(modes))
         self._ansatz = PolyExpAnsatz.from_function(
             fn=triples.gket_state_Abc,
             symplectic=self.parameters.symplectic,
@@ -157,7 +158,7 @@ class GDM(DM):
         beta_trainable: bool = False,
         symplectic_trainable: bool = False,
     ) -> None:
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes)
         super().__init__(name="GDM")
         symplectic = symplectic if symplectic is not None else math.random_symplectic(len(modes))
         (betas,) = list(reshape_params(len(modes), betas=beta))
@@ -170,6 +171,7 @@ class GDM(DM):
                 update_fn="update_symplectic",
             ),
         )
+        check_symplectic(self.parameters.symplectic.value, len(modes))
         self.parameters.add_parameter(
             make_parameter(
                 is_trainable=beta_trainable,
diff --git a/mrmustard/lab/states/ket.py b/mrmustard/lab/states/ket.py
index 9a022be..d3abfc7 100644
--- a/mrmustard/lab/states/ket.py
+++ b/mrmustard/lab/states/ket.py
@@ -33,7 +33,7 @@ from mrmustard.utils.typing import Batch, ComplexMatrix, ComplexVector, Scalar
 from ..circuit_components import CircuitComponent
 from ..circuit_components_utils import TraceOut
 from ..transformations import Operation, Unitary
-from ..utils import shape_check
+from ..utils import check_ansatz, check_modes, shape_check
 from .base import OperatorType, State, _validate_operator
 from .dm import DM
 
@@ -138,14 +138,9 @@ class Ket(State):
         ansatz: PolyExpAnsatz | ArrayAnsatz | None = None,
         name: str | None = None,
     ) -> State:
-        if not isinstance(modes, set) and sorted(modes) != list(modes):
-            raise ValueError(f"Modes must be sorted. Got {modes}")
-        modes = set(modes)
-        if ansatz and ansatz.core_dims != len(modes):
-            raise ValueError(
-                f"Expected an ansatz with {len(modes)} variables, found {ansatz.core_dims}.",
-            )
-        wires = Wires(modes_out_ket=modes)
+        modes = check_modes(modes)
+        check_ansatz(ansatz, len(modes))
+        wires = Wires(modes_out_ket=set(modes))
         return Ket(ansatz, wires, name=name)
 
     @classmethod
@@ -372,6 +367,7 @@ class Ket(State):
 
             >>> assert A_core[0,0] == 0
         """
+        core_modes = check_modes(core_modes, subset_of=self.modes)
         other_modes = [m for m in self.modes if m not in core_modes]
         core_indices = self.wires[core_modes].indices
         other_indices = self.wires[other_modes].indices
@@ -454,6 +450,7 @@ class Ket(State):
             >>> assert math.allclose(A_c[0,0], 0)
         """
         # bringing A to the ordering of our interest
+        core_modes = check_modes(core_modes, subset_of=self.modes)
         other_modes = [m for m in self.modes if m not in core_modes]
         core_indices = self.wires[core_modes].indices
         other_indices = self.wires[other_modes].indices
diff --git a/mrmustard/lab/states/number.py b/mrmustard/lab/states/number.py
index 2e36fe2..aca7eaa 100644
--- a/mrmustard/lab/states/number.py
+++ b/mrmustard/lab/states/number.py
@@ -25,7 +25,7 @@ from mrmustard.physics.ansatz import ArrayAnsatz
 from mrmustard.physics.fock_utils import fock_state
 from mrmustard.physics.wires import ReprEnum, Wires
 
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .ket import Ket
 
 __all__ = ["Number"]
@@ -68,7 +68,7 @@ class Number(Ket):
         n: int | Sequence[int],
         cutoff: int | None = None,
     ) -> None:
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="N")
         self.parameters.add_parameter(make_parameter(False, n, "n", (None, None), dtype=math.int64))
         cutoff = int(math.max(self.parameters.n.value) + 1) if cutoff is None else cutoff
diff --git a/mrmustard/lab/states/quadrature_eigenstate.py b/mrmustard/lab/states/quadrature_eigenstate.py
index 7a6136b..24a30f7 100644
--- a/mrmustard/lab/states/quadrature_eigenstate.py
+++ b/mrmustard/lab/states/quadrature_eigenstate.py
@@ -27,7 +27,7 @@ from mrmustard.physics import triples
 from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import ReprEnum, Wires
 
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .ket import Ket
 
 __all__ = ["QuadratureEigenstate"]
@@ -70,7 +70,7 @@ class QuadratureEigenstate(Ket):
         x_bounds: tuple[float | None, float | None] = (None, None),
         phi_bounds: tuple[float | None, float | None] = (None, None),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="QuadratureEigenstate")
 
         self.parameters.add_parameter(
diff --git a/mrmustard/lab/states/sauron.py b/mrmustard/lab/states/sauron.py
index 721b4db..c957998 100644
--- a/mrmustard/lab/states/sauron.py
+++ b/mrmustard/lab/states/sauron.py
@@ -24,7 +24,7 @@ from mrmustard.physics import triples
 from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 
 
 class Sauron(Ket):
@@ -57,7 +57,7 @@ class Sauron(Ket):
     """
 
     def __init__(self, mode: int | tuple[int], n: int, epsilon: float = 0.1):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name=f"Sauron-{n}")
 
         self.parameters.add_parameter(make_parameter(False, n, "n", (None, None), dtype=math.int64))
diff --git a/mrmustard/lab/states/squeezed_vacuum.py b/mrmustard/lab/states/squeezed_vacuum.py
index 2e3bab9..10db70d 100644
--- a/mrmustard/lab/states/squeezed_vacuum.py
+++ b/mrmustard/lab/states/squeezed_vacuum.py
@@ -26,7 +26,7 @@ from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import ComplexTensor
 
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .ket import Ket
 
 __all__ = ["SqueezedVacuum"]
@@ -66,7 +66,7 @@ class SqueezedVacuum(Ket):
         r_bounds: tuple[float | None, float | None] = (None, None),
         phi_bounds: tuple[float | None, float | None] = (None, None),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="SqueezedVacuum")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/states/thermal.py b/mrmustard/lab/states/thermal.py
index 5242f38..fbacf12 100644
--- a/mrmustard/lab/states/thermal.py
+++ b/mrmustard/lab/states/thermal.py
@@ -24,7 +24,7 @@ from mrmustard.physics import triples
 from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .dm import DM
 
 __all__ = ["Thermal"]
@@ -61,7 +61,7 @@ class Thermal(DM):
         nbar_trainable: bool = False,
         nbar_bounds: tuple[float | None, float | None] = (0, None),
     ) -> None:
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="Thermal")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/states/two_mode_squeezed_vacuum.py b/mrmustard/lab/states/two_mode_squeezed_vacuum.py
index b61a526..ef85a89 100644
--- a/mrmustard/lab/states/two_mode_squeezed_vacuum.py
+++ b/mrmustard/lab/states/two_mode_squeezed_vacuum.py
@@ -25,7 +25,7 @@ from mrmustard.physics import triples
 from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .ket import Ket
 
 __all__ = ["TwoModeSqueezedVacuum"]
@@ -67,6 +67,7 @@ class TwoModeSqueezedVacuum(Ket):
         r_bounds: tuple[float | None, float | None] = (None, None),
         phi_bounds: tuple[float | None, float | None] = (None, None),
     ):
+        modes = check_modes(modes, 2, in_order=False)
         super().__init__(name="TwoModeSqueezedVacuum")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/states/vacuum.py b/mrmustard/lab/states/vacuum.py
index 531a843..febe7cb 100644
--- a/mrmustard/lab/states/vacuum.py
+++ b/mrmustard/lab/states/vacuum.py
@@ -24,6 +24,7 @@ from mrmustard.physics import triples
 from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 
+from ..utils import check_modes
 from .ket import Ket
 
 __all__ = ["Vacuum"]
@@ -63,7 +64,7 @@ class Vacuum(Ket):
         self,
         modes: int | tuple[int, ...],
     ) -> None:
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes, in_order=False)
         A, b, c = triples.vacuum_state_Abc(len(modes))
         ansatz = PolyExpAnsatz(A, b, c)
         wires = Wires(modes_out_ket=set(modes))
diff --git a/mrmustard/lab/transformations/amplifier.py b/mrmustard/lab/transformations/amplifier.py
index d5a74d6..1c7ff1b 100644
--- a/mrmustard/lab/transformations/amplifier.py
+++ b/mrmustard/lab/transformations/amplifier.py
@@ -25,7 +25,7 @@ from mrmustard.physics.wires import Wires
 
 from ...physics import triples
 from ...physics.ansatz import PolyExpAnsatz
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Channel
 
 __all__ = ["Amplifier"]
@@ -85,7 +85,7 @@ class Amplifier(Channel):
         gain_trainable: bool = False,
         gain_bounds: tuple[float | None, float | None] = (1.0, None),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="Amp~")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/transformations/attenuator.py b/mrmustard/lab/transformations/attenuator.py
index 7e39c98..f5c9b32 100644
--- a/mrmustard/lab/transformations/attenuator.py
+++ b/mrmustard/lab/transformations/attenuator.py
@@ -25,7 +25,7 @@ from mrmustard.physics.wires import Wires
 
 from ...physics import triples
 from ...physics.ansatz import PolyExpAnsatz
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Channel
 
 __all__ = ["Attenuator"]
@@ -85,7 +85,7 @@ class Attenuator(Channel):
         transmissivity_trainable: bool = False,
         transmissivity_bounds: tuple[float | None, float | None] = (0.0, 1.0),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="Att~")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index a8a1415..2d26440 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -40,6 +40,7 @@ from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import ComplexMatrix, ComplexTensor, RealMatrix, Vector
 
 from ..circuit_components import CircuitComponent
+from ..utils import check_ansatz, check_modes
 
 __all__ = ["Channel", "Map", "Operation", "Transformation", "Unitary"]
 
@@ -209,10 +210,8 @@ class Operation(Transformation):
         ansatz: PolyExpAnsatz | ArrayAnsatz | None = None,
         name: str | None = None,
     ) -> Transformation:
-        if not isinstance(modes_out, set) and sorted(modes_out) != list(modes_out):
-            raise ValueError(f"Output modes must be sorted. got {modes_out}")
-        if not isinstance(modes_in, set) and sorted(modes_in) != list(modes_in):
-            raise ValueError(f"Input modes must be sorted. got {modes_in}")
+        modes_out, modes_in = check_modes(modes_out), check_modes(modes_in)
+        check_ansatz(ansatz, len(modes_out) + len(modes_in))
         return Operation(
             ansatz=ansatz,
             wires=Wires(set(), set(), set(modes_out), set(modes_in)),
@@ -242,10 +241,8 @@ class Unitary(Operation):
         ansatz: PolyExpAnsatz | ArrayAnsatz | None = None,
         name: str | None = None,
     ) -> Transformation:
-        if not isinstance(modes_out, set) and sorted(modes_out) != list(modes_out):
-            raise ValueError(f"Output modes must be sorted. got {modes_out}")
-        if not isinstance(modes_in, set) and sorted(modes_in) != list(modes_in):
-            raise ValueError(f"Input modes must be sorted. got {modes_in}")
+        modes_out, modes_in = check_modes(modes_out), check_modes(modes_in)
+        check_ansatz(ansatz, len(modes_out) + len(modes_in))
         return Unitary(
             ansatz=ansatz,
             wires=Wires(set(), set(), set(modes_out), set(modes_in)),
@@ -359,10 +356,8 @@ class Map(Transformation):
         ansatz: PolyExpAnsatz | ArrayAnsatz | None = None,
         name: str | None = None,
     ) -> Transformation:
-        if not isinstance(modes_out, set) and sorted(modes_out) != list(modes_out):
-            raise ValueError(f"Output modes must be sorted. got {modes_out}")
-        if not isinstance(modes_in, set) and sorted(modes_in) != list(modes_in):
-            raise ValueError(f"Input modes must be sorted. got {modes_in}")
+        modes_out, modes_in = check_modes(modes_out), check_modes(modes_in)
+        check_ansatz(ansatz, 2 * (len(modes_out) + len(modes_in)))
         return Map(
             ansatz=ansatz,
             wires=Wires(set(modes_out), set(modes_in), set(modes_out), set(modes_in)),
@@ -477,10 +472,8 @@ class Channel(Map):
         ansatz: PolyExpAnsatz | ArrayAnsatz | None = None,
         name: str | None = None,
     ) -> Transformation:
-        if not isinstance(modes_out, set) and sorted(modes_out) != list(modes_out):
-            raise ValueError(f"Output modes must be sorted. got {modes_out}")
-        if not isinstance(modes_in, set) and sorted(modes_in) != list(modes_in):
-            raise ValueError(f"Input modes must be sorted. got {modes_in}")
+        modes_out, modes_in = check_modes(modes_out), check_modes(modes_in)
+        check_ansatz(ansatz, 2 * (len(modes_out) + len(modes_in)))
         return Channel(
             ansatz=ansatz,
             wires=Wires(set(modes_out), set(modes_in), set(modes_out), set(modes_in)),
diff --git a/mrmustard/lab/transformations/bsgate.py b/mrmustard/lab/transformations/bsgate.py
index 58da203..4064bda 100644
--- a/mrmustard/lab/transformations/bsgate.py
+++ b/mrmustard/lab/transformations/bsgate.py
@@ -26,7 +26,7 @@ from mrmustard.utils.typing import ComplexTensor
 from ...physics import triples
 from ...physics.ansatz import PolyExpAnsatz
 from ...physics.wires import Wires
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Unitary
 
 __all__ = ["BSgate"]
@@ -96,6 +96,7 @@ class BSgate(Unitary):
         theta_bounds: tuple[float | None, float | None] = (None, None),
         phi_bounds: tuple[float | None, float | None] = (None, None),
     ):
+        modes = check_modes(modes, 2)
         super().__init__(name="BSgate")
         self.parameters.add_parameter(
             make_parameter(theta_trainable, theta, "theta", theta_bounds, dtype=math.float64)
diff --git a/mrmustard/lab/transformations/cxgate.py b/mrmustard/lab/transformations/cxgate.py
index ddbc16f..af32629 100644
--- a/mrmustard/lab/transformations/cxgate.py
+++ b/mrmustard/lab/transformations/cxgate.py
@@ -25,7 +25,7 @@ from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 
 from ...physics import symplectics
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Unitary
 
 __all__ = ["CXgate"]
@@ -67,6 +67,7 @@ class CXgate(Unitary):
         s_trainable: bool = False,
         s_bounds: tuple[float | None, float | None] = (None, None),
     ):
+        modes = check_modes(modes, 2)
         super().__init__(name="CXgate")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/transformations/czgate.py b/mrmustard/lab/transformations/czgate.py
index 99d86a3..e7978ae 100644
--- a/mrmustard/lab/transformations/czgate.py
+++ b/mrmustard/lab/transformations/czgate.py
@@ -25,7 +25,7 @@ from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 
 from ...physics import symplectics
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Unitary
 
 __all__ = ["CZgate"]
@@ -68,6 +68,7 @@ class CZgate(Unitary):
         s_trainable: bool = False,
         s_bounds: tuple[float | None, float | None] = (None, None),
     ):
+        modes = check_modes(modes, 2)
         super().__init__(name="CZgate")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/transformations/dgate.py b/mrmustard/lab/transformations/dgate.py
index 470cfdf..b87ff3d 100644
--- a/mrmustard/lab/transformations/dgate.py
+++ b/mrmustard/lab/transformations/dgate.py
@@ -26,7 +26,7 @@ from mrmustard.utils.typing import ComplexTensor
 from ...physics import triples
 from ...physics.ansatz import PolyExpAnsatz
 from ...physics.wires import Wires
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Unitary
 
 __all__ = ["Dgate"]
@@ -81,7 +81,7 @@ class Dgate(Unitary):
         alpha_trainable: bool = False,
         alpha_bounds: tuple[float | None, float | None] = (0, None),
     ) -> None:
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="Dgate")
         self.parameters.add_parameter(
             make_parameter(alpha_trainable, alpha, "alpha", alpha_bounds, dtype=math.complex128),
diff --git a/mrmustard/lab/transformations/fockdamping.py b/mrmustard/lab/transformations/fockdamping.py
index fade9bc..44ba88d 100644
--- a/mrmustard/lab/transformations/fockdamping.py
+++ b/mrmustard/lab/transformations/fockdamping.py
@@ -25,7 +25,7 @@ from mrmustard.physics.wires import Wires
 
 from ...physics import triples
 from ...physics.ansatz import PolyExpAnsatz
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Operation
 
 __all__ = ["FockDamping"]
@@ -74,7 +74,7 @@ class FockDamping(Operation):
         damping_trainable: bool = False,
         damping_bounds: tuple[float | None, float | None] = (0.0, None),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="FockDamping")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/transformations/gaussrandnoise.py b/mrmustard/lab/transformations/gaussrandnoise.py
index dd48b9a..1cb758c 100644
--- a/mrmustard/lab/transformations/gaussrandnoise.py
+++ b/mrmustard/lab/transformations/gaussrandnoise.py
@@ -24,7 +24,7 @@ from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import RealMatrix
 
 from ...physics import triples
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Channel
 
 __all__ = ["GaussRandNoise"]
@@ -71,7 +71,7 @@ class GaussRandNoise(Channel):
         Y: RealMatrix,
         Y_trainable: bool = False,
     ):
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes)
         if Y.shape[-1] // 2 != len(modes):
             raise ValueError(
                 f"The number of modes {len(modes)} does not match the dimension of the "
diff --git a/mrmustard/lab/transformations/ggate.py b/mrmustard/lab/transformations/ggate.py
index 527a953..8a1de52 100644
--- a/mrmustard/lab/transformations/ggate.py
+++ b/mrmustard/lab/transformations/ggate.py
@@ -23,7 +23,7 @@ from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import RealMatrix
 
 from ...physics.ansatz import PolyExpAnsatz
-from ..utils import make_parameter
+from ..utils import check_modes, check_symplectic, make_parameter
 from .base import Unitary
 
 __all__ = ["Ggate"]
@@ -56,7 +56,7 @@ class Ggate(Unitary):
         symplectic: RealMatrix | None = None,
         symplectic_trainable: bool = False,
     ):
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes)
         super().__init__(name="Ggate")
 
         symplectic = symplectic if symplectic is not None else math.random_symplectic(len(modes))
@@ -69,6 +69,7 @@ class Ggate(Unitary):
                 update_fn="update_symplectic",
             ),
         )
+        check_symplectic(self.parameters.symplectic.value, len(modes))
         self._ansatz = PolyExpAnsatz.from_function(
             fn=lambda s: Unitary.from_symplectic(modes, s).bargmann_triple(),
             s=self.parameters.symplectic,
diff --git a/mrmustard/lab/transformations/identity.py b/mrmustard/lab/transformations/identity.py
index fa6b74c..03b4c3e 100644
--- a/mrmustard/lab/transformations/identity.py
+++ b/mrmustard/lab/transformations/identity.py
@@ -22,6 +22,7 @@ from mrmustard.physics.wires import Wires
 
 from ...physics import triples
 from ...physics.ansatz import PolyExpAnsatz
+from ..utils import check_modes
 from .base import Unitary
 
 __all__ = ["Identity"]
@@ -66,7 +67,7 @@ class Identity(Unitary):
         self,
         modes: int | tuple[int, ...],
     ):
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes, in_order=False)
         super().__init__(name="Identity")
 
         self._ansatz = PolyExpAnsatz.from_function(fn=triples.identity_Abc, n_modes=len(modes))
diff --git a/mrmustard/lab/transformations/interferometer.py b/mrmustard/lab/transformations/interferometer.py
index ef391c4..d566e5b 100644
--- a/mrmustard/lab/transformations/interferometer.py
+++ b/mrmustard/lab/transformations/interferometer.py
@@ -24,7 +24,7 @@ from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import ComplexMatrix
 
 from ...physics import symplectics
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Unitary
 
 __all__ = ["Interferometer"]
@@ -62,7 +62,7 @@ class Interferometer(Unitary):
         unitary: ComplexMatrix | None = None,
         unitary_trainable: bool = False,
     ):
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes)
         num_modes = len(modes)
         unitary = unitary if unitary is not None else math.random_unitary(num_modes)
         if unitary.shape[-1] != num_modes:
diff --git a/mrmustard/lab/transformations/mzgate.py b/mrmustard/lab/transformations/mzgate.py
index 33ea3dd..7580aed 100644
--- a/mrmustard/lab/transformations/mzgate.py
+++ b/mrmustard/lab/transformations/mzgate.py
@@ -25,7 +25,7 @@ from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 
 from ...physics import symplectics
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Unitary
 
 __all__ = ["MZgate"]
@@ -72,6 +72,7 @@ class MZgate(Unitary):
         phi_b_bounds: tuple[float | None, float | None] = (None, None),
         internal: bool = False,
     ):
+        modes = check_modes(modes, 2)
         super().__init__(name="MZgate")
         self.parameters.add_parameter(
             make_parameter(phi_a_trainable, phi_a, "phi_a", phi_a_bounds, dtype=math.float64)
diff --git a/mrmustard/lab/transformations/pgate.py b/mrmustard/lab/transformations/pgate.py
index ce3b5fa..e2bafe0 100644
--- a/mrmustard/lab/transformations/pgate.py
+++ b/mrmustard/lab/transformations/pgate.py
@@ -25,7 +25,7 @@ from mrmustard.physics.ansatz import PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 
 from ...physics import symplectics
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Unitary
 
 __all__ = ["Pgate"]
@@ -60,7 +60,7 @@ class Pgate(Unitary):
         shearing_trainable: bool = False,
         shearing_bounds: tuple[float | None, float | None] = (None, None),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="Pgate")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/transformations/phasenoise.py b/mrmustard/lab/transformations/phasenoise.py
index 09e6868..8af1492 100644
--- a/mrmustard/lab/transformations/phasenoise.py
+++ b/mrmustard/lab/transformations/phasenoise.py
@@ -25,7 +25,7 @@ from mrmustard.lab.circuit_components import CircuitComponent
 from mrmustard.physics.ansatz.array_ansatz import ArrayAnsatz
 from mrmustard.physics.wires import Wires
 
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Channel
 
 __all__ = ["PhaseNoise"]
@@ -63,7 +63,7 @@ class PhaseNoise(Channel):
         phase_stdev_trainable: bool = False,
         phase_stdev_bounds: tuple[float | None, float | None] = (0.0, None),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="PhaseNoise")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/transformations/realinterferometer.py b/mrmustard/lab/transformations/realinterferometer.py
index b425c14..dca0df5 100644
--- a/mrmustard/lab/transformations/realinterferometer.py
+++ b/mrmustard/lab/transformations/realinterferometer.py
@@ -24,7 +24,7 @@ from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import RealMatrix
 
 from ...physics import symplectics
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Unitary
 
 __all__ = ["RealInterferometer"]
@@ -56,7 +56,7 @@ class RealInterferometer(Unitary):
         orthogonal: RealMatrix | None = None,
         orthogonal_trainable: bool = False,
     ):
-        modes = (modes,) if isinstance(modes, int) else modes
+        modes = check_modes(modes)
         num_modes = len(modes)
         if orthogonal is not None and orthogonal.shape[-1] != num_modes:
             raise ValueError(
diff --git a/mrmustard/lab/transformations/rgate.py b/mrmustard/lab/transformations/rgate.py
index df5a669..f751642 100644
--- a/mrmustard/lab/transformations/rgate.py
+++ b/mrmustard/lab/transformations/rgate.py
@@ -25,7 +25,7 @@ from mrmustard.physics.wires import Wires
 
 from ...physics import triples
 from ...physics.ansatz import PolyExpAnsatz
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Unitary
 
 __all__ = ["Rgate"]
@@ -59,7 +59,7 @@ class Rgate(Unitary):
         theta_trainable: bool = False,
         theta_bounds: tuple[float | None, float | None] = (0.0, None),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="Rgate")
         self.parameters.add_parameter(
             make_parameter(theta_trainable, theta, "theta", theta_bounds, dtype=math.float64)
diff --git a/mrmustard/lab/transformations/s2gate.py b/mrmustard/lab/transformations/s2gate.py
index 0f005f5..8fa1f58 100644
--- a/mrmustard/lab/transformations/s2gate.py
+++ b/mrmustard/lab/transformations/s2gate.py
@@ -25,7 +25,7 @@ from mrmustard.physics.wires import Wires
 
 from ...physics import triples
 from ...physics.ansatz import PolyExpAnsatz
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Unitary
 
 __all__ = ["S2gate"]
@@ -79,6 +79,7 @@ class S2gate(Unitary):
         r_bounds: tuple[float | None, float | None] = (0, None),
         phi_bounds: tuple[float | None, float | None] = (None, None),
     ):
+        modes = check_modes(modes, 2, in_order=False)
         super().__init__(name="S2gate")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/transformations/sgate.py b/mrmustard/lab/transformations/sgate.py
index 59cb161..438e6b5 100644
--- a/mrmustard/lab/transformations/sgate.py
+++ b/mrmustard/lab/transformations/sgate.py
@@ -26,7 +26,7 @@ from mrmustard.utils.typing import ComplexTensor
 
 from ...physics import triples
 from ...physics.ansatz import PolyExpAnsatz
-from ..utils import make_parameter
+from ..utils import check_modes, make_parameter
 from .base import Unitary
 
 __all__ = ["Sgate"]
@@ -91,7 +91,7 @@ class Sgate(Unitary):
         r_bounds: tuple[float | None, float | None] = (0.0, None),
         phi_bounds: tuple[float | None, float | None] = (None, None),
     ):
-        mode = (mode,) if not isinstance(mode, tuple) else mode
+        mode = check_modes(mode, 1)
         super().__init__(name="Sgate")
         self.parameters.add_parameter(
             make_parameter(
diff --git a/mrmustard/lab/utils.py b/mrmustard/lab/utils.py
index 1f72fe1..6d426d2 100644
--- a/mrmustard/lab/utils.py
+++ b/mrmustard/lab/utils.py
@@ -18,11 +18,13 @@ This module contains the utility functions used by the classes in ``mrmustard.la
 
 from __future__ import annotations
 
-from collections.abc import Generator
+from collections.abc import Collection, Generator, Iterable
 from typing import Any, Literal
 
 from mrmustard import math
 from mrmustard.math.parameters import Constant, Variable
+from mrmustard.physics.ansatz import Ansatz
+from mrmustard.utils.typing import RealMatrix
 
 
 def make_parameter(
@@ -53,6 +55,72 @@ def make_parameter(
     return Variable(value=value, name=name, bounds=bounds, update_fn=update_fn, dtype=dtype)
 
 
+def check_ansatz(ansatz: Ansatz | None, n_vars: int) -> None:
+    r"""
+    Checks that an ansatz has one variable per wire.
+
+    Args:
+        ansatz: The ansatz.
+        n_vars: The expected number of variables.
+
+    Raises:
+        ValueError: If the ansatz has a different number of variables.
+    """
+    if ansatz is not None and ansatz.core_dims != n_vars:
+        raise ValueError(f"Expected an ansatz with {n_vars} variables, found {ansatz.core_dims}.")
+
+
+def check_modes(
+    modes: int | Collection[int],
+    n_modes: int | None = None,
+    in_order: bool = True,
+    subset_of: Collection[int] | None = None,
+) -> tuple[int, ...]:
+    r"""
+    Checks that modes can be assigned to a component, and returns them as a tuple.
+
+    Args:
+        modes: The mode or modes.
+        n_modes: The number of modes, if it is fixed.
+        in_order: Whether the modes need to be sorted. This is the case for components that change
+            when their modes are swapped, as the wires are always sorted.
+        subset_of: The modes to choose from, if they are given.
+
+    Raises:
+        ValueError: If the modes are repeated, not sorted, not as many as expected, or not among
+            the modes to choose from.
+    """
+    if isinstance(modes, set | frozenset):
+        modes = sorted(modes)
+    modes = tuple(modes) if isinstance(modes, Iterable) else (modes,)
+    if n_modes is not None and len(modes) != n_modes:
+        raise ValueError(f"Expected {n_modes} modes, found {modes}.")
+    if len(set(modes)) != len(modes):
+        raise ValueError(f"Modes must not be repeated. Got {modes}")
+    if in_order and list(modes) != sorted(modes):
+        raise ValueError(f"Modes must be sorted. Got {modes}")
+    if subset_of is not None and not set(modes).issubset(subset_of):
+        raise ValueError(f"Expected a subset of ``{subset_of}``, found ``{modes}``.")
+    return modes
+
+
+def check_symplectic(symplectic: RealMatrix, n_modes: int) -> None:
+    r"""
+    Checks that symplectic matrices have the size required by the number of modes.
+
+    Args:
+        symplectic: The symplectic matrix or matrices.
+        n_modes: The number of modes.
+
+    Raises:
+        ValueError: If the symplectic matrices have another size.
+    """
+    if symplectic.shape[-2:] != (2 * n_modes, 2 * n_modes):
+        raise ValueError(
+            f"Expected symplectic matrices of size {2 * n_modes}, found shape {symplectic.shape}.",
+        )
+
+
 def reshape_params(n_modes: int, **kwargs) -> Generator:
     r"""
     A utility function to turn the input parameters of states and gates into
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index ac31cef..e14db80 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -374,6 +374,10 @@ class PolyExpAnsatz(Ansatz):
             if actual != expected:
                 raise ValueError(f"Expected {expected} {description}, found {actual}.")
 
+        for labels, name in [(core1, "idx1"), (core2, "idx2")]:
+            if len(set(labels)) != len(labels):
+                raise ValueError(f"{name} cannot contain repeated core labels: {labels}")
+
         # Check contracted core labels don't appear in output
         if not set(core_out).isdisjoint(contracted_cores := set(core1) & set(core2)):
             raise ValueError(
@@ -534,6 +538,8 @@ class PolyExpAnsatz(Ansatz):
         """
         if len(order) != self.num_CV_vars:
             raise ValueError(f"order must have length {self.num_CV_vars}, got {len(order)}")
+        if sorted(order) != list(range(self.num_CV_vars)):
+            raise ValueError(f"order must be a permutation of the variables, got {order}")
         # Add derived variable indices after CV indices
         order = list(order) + list(
             range(self.num_CV_vars, self.num_CV_vars + self.num_derived_vars),
diff --git a/mrmustard/physics/utils.py b/mrmustard/physics/utils.py
index 386e22d..0baf306 100644
--- a/mrmustard/physics/utils.py
+++ b/mrmustard/physics/utils.py
@@ -131,6 +131,9 @@ def verify_batch_triple(
     batch = A.shape[:-2]
     batch_dim = len(batch)
 
+    if A.shape[-2:] != 2 * b.shape[-1:] or len(b.shape) != batch_dim + 1:
+        raise ValueError(f"A and b must have compatible shapes, got {A.shape} and {b.shape}.")
+
     if batch != b.shape[:batch_dim] or (len(c.shape) != 0 and batch != c.shape[:batch_dim]):
         raise ValueError(
             f"Batch dimensions of the first triple ({batch}, {b.shape[:batch_dim]}, {c.shape[:batch_dim]}) are inconsistent.",
-- 
2.43.0


From b0f723d39d84d8177c54fe74fffe43a5f8eb234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:43 +0000
Subject: [PATCH 56/70] fix: gradients of squeezer, squeezed and beamsplitter
 were twice too large

---
 mrmustard/math/lattice/strategies/beamsplitter.py | 4 ++--
 mrmustard/math/lattice/strategies/squeezer.py     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrmustard/math/lattice/strategies/beamsplitter.py b/mrmustard/math/lattice/strategies/beamsplitter.py
index f094958..ca9a84f 100644
--- a/mrmustard/math/lattice/strategies/beamsplitter.py
+++ b/mrmustard/math/lattice/strategies/beamsplitter.py
@@ -232,10 +232,10 @@ def beamsplitter_vjp(
     em = np.exp(-1j * phi)
 
     # omitting bottom-left block because dLdA should be zero there
-    dLdtheta = 2 * np.real(
+    dLdtheta = np.real(
         -st * dLdA[0, 2] - ct * em * dLdA[0, 3] + ct * e * dLdA[1, 2] - st * dLdA[1, 3],
     )
-    dLdphi = 2 * np.real(1j * st * em * dLdA[0, 3] + 1j * st * e * dLdA[1, 2])
+    dLdphi = np.real(1j * st * em * dLdA[0, 3] + 1j * st * e * dLdA[1, 2])
 
     return dLdtheta, dLdphi
 
diff --git a/mrmustard/math/lattice/strategies/squeezer.py b/mrmustard/math/lattice/strategies/squeezer.py
index f2f9a9a..4706b30 100644
--- a/mrmustard/math/lattice/strategies/squeezer.py
+++ b/mrmustard/math/lattice/strategies/squeezer.py
@@ -112,13 +112,13 @@ def squeezer_vjp(
     exp = np.exp(1j * phi)
     exp_conj = np.exp(-1j * phi)
 
-    dLdr = 2 * np.real(
+    dLdr = np.real(
         -dLdA[0, 0] * exp * d_tanh
         + dLdA[0, 1] * d_sech
         + dLdA[1, 1] * exp_conj * d_tanh
         - np.conj(dLdC) * 0.5 * tanh,  # / np.sqrt(np.cosh(r))
     )
-    dLdphi = 2 * np.real(-dLdA[0, 0] * 1j * exp * tanh - dLdA[1, 1] * 1j * exp_conj * tanh)
+    dLdphi = np.real(-dLdA[0, 0] * 1j * exp * tanh - dLdA[1, 1] * 1j * exp_conj * tanh)
 
     return dLdr, dLdphi
 
@@ -185,7 +185,7 @@ def squeezed_vjp(
 
     dLdC = np.sum(G * dLdG)  # np.sqrt(np.cosh(r)) cancels out with 1 / np.sqrt(np.cosh(r)) later
 
-    dLdr = 2 * np.real(-dLdA[0, 0] * exp * d_tanh - np.conj(dLdC) * 0.5 * tanh)
-    dLdphi = 2 * np.real(-dLdA[0, 0] * 1j * exp * tanh)
+    dLdr = np.real(-dLdA[0, 0] * exp * d_tanh - np.conj(dLdC) * 0.5 * tanh)
+    dLdphi = np.real(-dLdA[0, 0] * 1j * exp * tanh)
 
     return dLdr, dLdphi
-- 
2.43.0


From 77811d8b10260c9db70b4eaeb1b0a253ffbabef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:43 +0000
Subject: [PATCH 57/70] fix: out-of-bounds reads in the gradient of the vanilla
 recurrence

---
 mrmustard/math/lattice/steps.py                    | 14 +++++++++++---
 .../math/lattice/strategies/vanilla/gradients.py   | 10 +++++++++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/mrmustard/math/lattice/steps.py b/mrmustard/math/lattice/steps.py
index 438c759..f9c1af9 100644
--- a/mrmustard/math/lattice/steps.py
+++ b/mrmustard/math/lattice/steps.py
@@ -162,11 +162,19 @@ def vanilla_step_grad(
         tuple[array, array]: the updated dGdB and dGdA tensors
     """
     for i in range(len(db)):
+        if index[i] == 0:  # no pivot along this index
+            db[i] = 0.0
+            dA[i, i:] = 0.0
+            continue
         pivot_i = tuple_setitem(index, i, index[i] - 1)
         db[i] = SQRT[index[i]] * G[pivot_i]
-        dA[i, i] = 0.5 * SQRT[index[i] * pivot_i[i]] * G[tuple_setitem(pivot_i, i, pivot_i[i] - 1)]
-        for j in range(i + 1, len(db)):
-            dA[i, j] = SQRT[index[i] * pivot_i[j]] * G[tuple_setitem(pivot_i, j, pivot_i[j] - 1)]
+        for j in range(i, len(db)):
+            if pivot_i[j] == 0:  # no lower neighbour along this index
+                dA[i, j] = 0.0
+            else:
+                neighbor = tuple_setitem(pivot_i, j, pivot_i[j] - 1)
+                dA[i, j] = SQRT[index[i] * pivot_i[j]] * G[neighbor]
+        dA[i, i] *= 0.5
 
     return dA, db
 
diff --git a/mrmustard/math/lattice/strategies/vanilla/gradients.py b/mrmustard/math/lattice/strategies/vanilla/gradients.py
index 8d99b74..67e6a2e 100644
--- a/mrmustard/math/lattice/strategies/vanilla/gradients.py
+++ b/mrmustard/math/lattice/strategies/vanilla/gradients.py
@@ -64,6 +64,10 @@ def vanilla_vjp_numba(
     for flat_index, index_u in enumerate(nd_index):
         # contributions from pivot and lower neighbours
         for i in range(D):
+            if index_u[i] == 0:  # no pivot (and no lower neighbour) along this index
+                db[i] = 0.0
+                dA[i, i:] = 0.0
+                continue
             pivot = (flat_index + 1) - strides[i]
             db[i] = SQRT[index_u[i]] * G_lin[pivot]
             dA[i, i] = (
@@ -72,7 +76,11 @@ def vanilla_vjp_numba(
                 else 0.0
             )
             for j in range(i + 1, D):
-                dA[i, j] = SQRT[index_u[i]] * SQRT[index_u[j]] * G_lin[pivot - strides[j]]
+                dA[i, j] = (
+                    SQRT[index_u[i]] * SQRT[index_u[j]] * G_lin[pivot - strides[j]]
+                    if index_u[j] > 0
+                    else 0.0
+                )
 
         dLdA += dA * dLdG[index_u]
         dLdb += db * dLdG[index_u]
-- 
2.43.0


From 83e79445fb069f9a4e1d9745841e017d88e2e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:43 +0000
Subject: [PATCH 58/70] fix: gradient of hermite_renormalized_1leftoverMode did
 not compile; gradient of the compactFock strategies when c is zero

---
 .../strategies/compactFock/inputValidation.py       | 13 +++++++++++--
 .../compactFock/singleLeftoverMode_grad.py          | 10 +++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/mrmustard/math/lattice/strategies/compactFock/inputValidation.py b/mrmustard/math/lattice/strategies/compactFock/inputValidation.py
index ad704e9..769e96c 100644
--- a/mrmustard/math/lattice/strategies/compactFock/inputValidation.py
+++ b/mrmustard/math/lattice/strategies/compactFock/inputValidation.py
@@ -96,7 +96,11 @@ def grad_hermite_multidimensional_diagonal(A, B, G0, arr0, arr2, arr1010, arr100
         arr1001,
         arr1,
     )
-    arr0_dG0 = np.array(arr0 / G0).astype(np.complex128)
+    if G0 == 0:  # the derivative with respect to G0 is the array for G0 = 1
+        arr0_dG0 = fock_representation_diagonal_amps(A, B, np.array(1.0 + 0j), M, arr0.shape)[0]
+    else:
+        arr0_dG0 = arr0 / G0
+    arr0_dG0 = np.array(arr0_dG0).astype(np.complex128)
     return arr0_dG0, arr0_dA, arr0_dB
 
 
@@ -138,5 +142,10 @@ def grad_hermite_multidimensional_1leftoverMode(A, B, G0, arr0, arr2, arr1010, a
         arr1001,
         arr1,
     )
-    arr0_dG0 = np.array(arr0 / G0).astype(np.complex128)
+    if G0 == 0:  # the derivative with respect to G0 is the array for G0 = 1
+        cutoffs = (arr0.shape[0], *arr0.shape[2:])
+        arr0_dG0 = fock_representation_1leftoverMode_amps(A, B, np.array(1.0 + 0j), M, cutoffs)[0]
+    else:
+        arr0_dG0 = arr0 / G0
+    arr0_dG0 = np.array(arr0_dG0).astype(np.complex128)
     return arr0_dG0, arr0_dA, arr0_dB
diff --git a/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py b/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py
index 2990a95..ac0a89b 100644
--- a/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py
+++ b/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py
@@ -388,10 +388,10 @@ def use_offDiag_pivot_grad(  # noqa: C901
 
     # Array2
     if params[d] + 2 < cutoffs_tail[d]:
-        write = (d, *params)
+        write_2 = (d, *params)
         arr2_dA, arr2_dB = write_block_grad(
             2 * d + 2,
-            write,
+            write_2,
             arr1,
             read_GB,
             G_in,
@@ -411,10 +411,10 @@ def use_offDiag_pivot_grad(  # noqa: C901
     # Array11
     for i in range(d + 1, M):
         if params[i] + 1 < cutoffs_tail[i]:
-            write = (d, i - d - 1, *params)
+            write_11 = (d, i - d - 1, *params)
             arr1010_dA, arr1010_dB = write_block_grad(
                 2 * i + 2,
-                write,
+                write_11,
                 arr1,
                 read_GB,
                 G_in,
@@ -432,7 +432,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
             )
             arr1001_dA, arr1001_dB = write_block_grad(
                 2 * i + 3,
-                write,
+                write_11,
                 arr1,
                 read_GB,
                 G_in,
-- 
2.43.0


From 89b02ce87f76323ff43836ab6c99c27ca6496488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:50 +0000
Subject: [PATCH 59/70] fix: gradients of hermite_renormalized where c is zero
 and of hermite_renormalized_binomial (jax)

---
 mrmustard/math/backend_jax.py      |  5 ++-
 mrmustard/math/jax_vjps/hermite.py | 66 ++++++++++++++++++++++++++----
 2 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/mrmustard/math/backend_jax.py b/mrmustard/math/backend_jax.py
index f0f2d0f..58f4681 100644
--- a/mrmustard/math/backend_jax.py
+++ b/mrmustard/math/backend_jax.py
@@ -26,6 +26,7 @@ from platformdirs import user_cache_dir
 from mrmustard.lab import Circuit, CircuitComponent
 from mrmustard.physics.ansatz import Ansatz
 
+from ..utils.settings import settings
 from .backend_base import BackendBase
 from .parameter_set import ParameterSet
 from .parameters import Constant, Variable
@@ -508,7 +509,9 @@ class BackendJax(BackendBase):
         max_l2: float | None,
         global_cutoff: int | None,
     ) -> jnp.ndarray:
-        return hermite_renormalized_binomial_jax(A, B, C, shape, max_l2, global_cutoff)
+        max_l2 = max_l2 or settings.AUTOSHAPE_PROBABILITY
+        global_cutoff = global_cutoff or sum(shape) - len(shape) + 1
+        return hermite_renormalized_binomial_jax(A, B, C, tuple(shape), max_l2, global_cutoff)
 
     def hermite_renormalized_diagonal(
         self,
diff --git a/mrmustard/math/jax_vjps/hermite.py b/mrmustard/math/jax_vjps/hermite.py
index cce481f..1d33a53 100644
--- a/mrmustard/math/jax_vjps/hermite.py
+++ b/mrmustard/math/jax_vjps/hermite.py
@@ -39,6 +39,46 @@ __all__ = [
     "hermite_renormalized_jax",
 ]
 
+
+def _hermite_vjp(G, A, b, c, g):
+    r"""
+    The vector-Jacobian product of ``hermite_renormalized`` for a single triple.
+    """
+    dLdA, dLdb, dLdc = strategies.vanilla_vjp_numba(G, np.where(c == 0, 1.0, c), g)
+    if c == 0:
+        dLdc = _vjp_at_zero_c(G, A, b, g)
+    return dLdA, dLdb, np.asarray(dLdc)
+
+
+def _hermite_batched_vjp(G, A, b, c, g):
+    r"""
+    The vector-Jacobian product of ``hermite_renormalized_batched``.
+    """
+    dLdA, dLdb, dLdc = strategies.vanilla_batch_vjp_numba(G, np.where(c == 0, 1.0, c), g)
+    for k in np.flatnonzero(c == 0):
+        dLdc[k] = _vjp_at_zero_c(G[k], A[k], b[k], g[k])
+    return dLdA, dLdb, dLdc
+
+
+def _vjp_at_zero_c(G, A, b, g):
+    r"""
+    The gradient with respect to ``c`` at ``c = 0``, using that the array is proportional to ``c``.
+    """
+    return np.sum(strategies.vanilla_numba(G.shape, A, b, np.array(1.0 + 0.0j)) * g)
+
+
+def _binomial_vjp(G, A, b, c, g, max_l2, global_cutoff):
+    r"""
+    The vector-Jacobian product of ``hermite_renormalized_binomial``. The amplitudes with more photons
+    than reached by the forward pass do not depend on the parameters.
+    """
+    photons = np.sum(np.indices(G.shape), axis=0)
+    norms = np.cumsum(np.bincount(photons.ravel(), np.abs(G.ravel()) ** 2))
+    reached = np.flatnonzero(norms > max_l2)
+    max_photons = min([global_cutoff - 1, *(max(w, 1) for w in reached[:1])])
+    return _hermite_vjp(G, A, b, c, np.where(photons <= max_photons, g, 0.0))
+
+
 # ~~~~~~~~~~~~~~~~~~~~
 # hermite_renormalized
 # ~~~~~~~~~~~~~~~~~~~~
@@ -89,13 +129,17 @@ def hermite_renormalized_jax_bwd(shape, stable, res, g):
     """
     G, A, b, c = res
     dLdA, dLdB, dLdC = jax.pure_callback(
-        lambda G, c, g: strategies.vanilla_vjp_numba(np.array(G), np.array(c), np.array(g)),
+        lambda G, A, b, c, g: _hermite_vjp(
+            np.array(G), np.array(A), np.array(b), np.array(c), np.array(g)
+        ),
         (
             jax.ShapeDtypeStruct(A.shape, jnp.complex128),
             jax.ShapeDtypeStruct(b.shape, jnp.complex128),
             jax.ShapeDtypeStruct(c.shape, jnp.complex128),
         ),
         G,
+        A,
+        b,
         c,
         g,
     )
@@ -156,13 +200,17 @@ def hermite_renormalized_batched_jax_bwd(shape, stable, res, g):
     """
     G, A, b, c = res
     dLdA, dLdB, dLdC = jax.pure_callback(
-        lambda G, c, g: strategies.vanilla_batch_vjp_numba(np.array(G), np.array(c), np.array(g)),
+        lambda G, A, b, c, g: _hermite_batched_vjp(
+            np.array(G), np.array(A), np.array(b), np.array(c), np.array(g)
+        ),
         (
             jax.ShapeDtypeStruct(A.shape, jnp.complex128),
             jax.ShapeDtypeStruct(b.shape, jnp.complex128),
             jax.ShapeDtypeStruct(c.shape, jnp.complex128),
         ),
         G,
+        A,
+        b,
         c,
         g,
     )
@@ -187,15 +235,15 @@ def hermite_renormalized_binomial_jax(
     B: jnp.ndarray,
     C: jnp.ndarray,
     shape: tuple[int],
-    max_l2: float | None,
-    global_cutoff: int | None,
+    max_l2: float,
+    global_cutoff: int,
 ) -> jnp.ndarray:
     r"""
     The jax custom gradient for hermite_renormalized_binomial.
     """
     function = partial(strategies.binomial, tuple(shape))
     return jax.pure_callback(
-        lambda A, B, C, max_l2, global_cutoff: function(
+        lambda A, B, C: function(
             np.asarray(A),
             np.asarray(B),
             np.asarray(C),
@@ -206,8 +254,6 @@ def hermite_renormalized_binomial_jax(
         A,
         B,
         C,
-        max_l2,
-        global_cutoff,
     )
 
 
@@ -225,13 +271,17 @@ def hermite_renormalized_binomial_jax_bwd(shape, max_l2, global_cutoff, res, g):
     """
     G, A, b, c = res
     dLdA, dLdB, dLdC = jax.pure_callback(
-        lambda G, c, g: strategies.vanilla_vjp(np.array(G), np.array(c), np.array(g)),
+        lambda G, A, b, c, g: _binomial_vjp(
+            np.array(G), np.array(A), np.array(b), np.array(c), np.array(g), max_l2, global_cutoff
+        ),
         (
             jax.ShapeDtypeStruct(A.shape, jnp.complex128),
             jax.ShapeDtypeStruct(b.shape, jnp.complex128),
             jax.ShapeDtypeStruct(c.shape, jnp.complex128),
         ),
         G,
+        A,
+        b,
         c,
         g,
     )
-- 
2.43.0


From c84e36b61f841ddd5e21d32e1715fe80e3d2f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:50 +0000
Subject: [PATCH 60/70] fix: hermite_renormalized_1leftoverMode ignored
 reorderedAB (numpy)

---
 mrmustard/math/backend_numpy.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mrmustard/math/backend_numpy.py b/mrmustard/math/backend_numpy.py
index 6400b87..2cae220 100644
--- a/mrmustard/math/backend_numpy.py
+++ b/mrmustard/math/backend_numpy.py
@@ -438,10 +438,20 @@ class BackendNumpy(BackendBase):
         c: np.ndarray,
         output_cutoff: int,
         pnr_cutoffs: tuple[int, ...],
-        stable: bool = False,
         reorderedAB: bool = True,
     ) -> np.ndarray:
-        return strategies.fast_diagonal(A, b, c, output_cutoff, pnr_cutoffs, stable).transpose(
+        if not reorderedAB:
+            # ``fast_diagonal`` takes the indices as [mode0,mode1,...,mode0,mode1,...]
+            ordering = np.arange(A.shape[0]).reshape(-1, 2).T.flatten()
+            A, b = A[np.ix_(ordering, ordering)], b[ordering]
+        return strategies.fast_diagonal(
+            A,
+            b,
+            c,
+            output_cutoff,
+            pnr_cutoffs,
+            stable=True,
+        ).transpose(
             (-2, -1, *tuple(range(len(pnr_cutoffs)))),
         )
 
-- 
2.43.0


From a79732a643fc9c06a0b1288228aeea21457a91cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:47 +0000
Subject: [PATCH 61/70] fix: fidelity of mixed states with a polynomial part
 used the formula for Gaussian states

---
 mrmustard/lab/states/dm.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index 1d634bf..df8f0b9 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -364,19 +364,23 @@ class DM(State):
         if self.modes != other.modes:
             raise ValueError("Cannot compute fidelity between states with different modes.")
         if isinstance(other, DM):
-            try:
+            gaussian = all(
+                isinstance(state.ansatz, PolyExpAnsatz) and state.ansatz.num_derived_vars == 0
+                for state in (self, other)
+            )
+            if gaussian:
                 cov1, mean1, _ = self.phase_space(0)
                 cov2, mean2, _ = other.phase_space(0)
                 return gaussian_fidelity(mean1, cov1, mean2, cov2)
-            except ValueError:  # array ansatz
-                shape1 = self.auto_shape()
-                shape2 = other.auto_shape()
-                min_shape = tuple(min(s1, s2) for s1, s2 in zip(shape1, shape2))
-                slc = tuple(slice(None, s) for s in min_shape)
-                side = np.prod([min_shape[i] for i in range(len(min_shape) // 2)])
-                dm1 = math.reshape(self.fock_array(min_shape)[slc], (side, side))
-                dm2 = math.reshape(other.fock_array(min_shape)[slc], (side, side))
-                return fock_dm_fidelity(dm1, dm2)
+            # array ansatz, or polynomial times exponential
+            shape1 = self.auto_shape()
+            shape2 = other.auto_shape()
+            min_shape = tuple(min(s1, s2) for s1, s2 in zip(shape1, shape2))
+            slc = tuple(slice(None, s) for s in min_shape)
+            side = np.prod([min_shape[i] for i in range(len(min_shape) // 2)])
+            dm1 = math.reshape(self.fock_array(min_shape)[slc], (side, side))
+            dm2 = math.reshape(other.fock_array(min_shape)[slc], (side, side))
+            return fock_dm_fidelity(dm1, dm2)
         return other.expectation(self)  # assuming other is a ket
 
     def fock_array(
-- 
2.43.0


From 95a1c544171629a159f799ffbce63e67786c0027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:47 +0000
Subject: [PATCH 62/70] fix: a component first evaluated inside of a compiled
 function could not be used after it (jax)

---
 mrmustard/math/backend_manager.py          | 13 +++++++++++++
 mrmustard/physics/ansatz/array_ansatz.py   |  6 +++++-
 mrmustard/physics/ansatz/base.py           | 14 ++++++++++++++
 mrmustard/physics/ansatz/polyexp_ansatz.py |  3 +++
 4 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/mrmustard/math/backend_manager.py b/mrmustard/math/backend_manager.py
index 9cebd3b..2a04f3a 100644
--- a/mrmustard/math/backend_manager.py
+++ b/mrmustard/math/backend_manager.py
@@ -858,6 +858,19 @@ class BackendManager:
         """
         return self._apply("isnan", (array,))
 
+    def is_traced(self, array: Tensor) -> bool:
+        r"""Whether the given array is a placeholder in a function that is being compiled or
+        differentiated by jax, as opposed to an array with values.
+
+        Args:
+            array: The array to check.
+
+        Returns:
+            Whether the array is a placeholder.
+        """
+        jax = sys.modules.get("jax")
+        return jax is not None and isinstance(array, jax.core.Tracer)
+
     def issubdtype(self, arg1, arg2) -> bool:
         r"""
         Whether the ``arg1`` is a typecode lower/equal in type hierarchy to ``arg2``.
diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 5ccbdd4..5b4972d 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -344,7 +344,11 @@ class ArrayAnsatz(Ansatz):
         Determines if the ansatz needs to be regenerated based on its current state
         and parameter types.
         """
-        return self._array is None or Variable in {type(param) for param in self._kwargs.values()}
+        return (
+            self._array is None
+            or self._is_stale(self._array)
+            or Variable in {type(param) for param in self._kwargs.values()}
+        )
 
     def _tree_flatten(self):  # pragma: no cover
         children, aux_data = super()._tree_flatten()
diff --git a/mrmustard/physics/ansatz/base.py b/mrmustard/physics/ansatz/base.py
index a68666a..a9d7985 100644
--- a/mrmustard/physics/ansatz/base.py
+++ b/mrmustard/physics/ansatz/base.py
@@ -24,6 +24,7 @@ from typing import Any
 
 from numpy.typing import ArrayLike
 
+from mrmustard import math
 from mrmustard.math.parameters import Constant, Variable
 from mrmustard.utils.typing import (
     Batch,
@@ -196,6 +197,19 @@ class Ansatz(ABC):
         and some kwargs.
         """
 
+    def _is_stale(self, array: Tensor) -> bool:
+        r"""
+        Whether ``array``, generated from the kwargs, belongs to a compilation which the kwargs do not
+        belong to, in which case it cannot be used after that compilation.
+        """
+        return (
+            self._fn is not None
+            and math.is_traced(array)
+            and not any(
+                math.is_traced(getattr(param, "value", param)) for param in self._kwargs.values()
+            )
+        )
+
     def _tree_flatten(self):  # pragma: no cover
         # only parameters are leaves, other arguments (e.g. counts and flags) are static
         names = self._static_names
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index e14db80..8209426 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -842,6 +842,9 @@ class PolyExpAnsatz(Ansatz):
             self._A is None
             or self._b is None
             or self._c is None
+            or self._is_stale(self._A)
+            or self._is_stale(self._b)
+            or self._is_stale(self._c)
             or Variable in {type(param) for param in self._kwargs.values()}
         )
 
-- 
2.43.0


From 0146509e93f1709c7cfd7dcb225573309a53f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:08 +0000
Subject: [PATCH 63/70] fix: arrays made with jax could not be used after
 switching to the numpy backend

---
 mrmustard/math/backend_numpy.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mrmustard/math/backend_numpy.py b/mrmustard/math/backend_numpy.py
index 2cae220..91e3d63 100644
--- a/mrmustard/math/backend_numpy.py
+++ b/mrmustard/math/backend_numpy.py
@@ -378,6 +378,16 @@ class BackendNumpy(BackendBase):
     # hermite_renormalized
     # ~~~~~~~~~~~~~~~~~~~~
 
+    @staticmethod
+    def _plain_arrays(*arrays) -> tuple[np.ndarray, ...]:
+        r"""The arrays as numpy arrays: those made with another backend cannot be passed to numba."""
+        return tuple(
+            np.array(x)
+            if hasattr(x, "__array__") and not isinstance(x, np.ndarray | np.generic)
+            else x
+            for x in arrays
+        )
+
     def hermite_renormalized(
         self,
         A: np.ndarray,
@@ -387,6 +397,7 @@ class BackendNumpy(BackendBase):
         stable: bool = False,
         out: np.ndarray | None = None,
     ) -> np.ndarray:
+        A, b, c = self._plain_arrays(A, b, c)
         if stable:
             return strategies.stable_numba(tuple(shape), A, b, c, out)
         return strategies.vanilla_numba(tuple(shape), A, b, c, out)
@@ -400,6 +411,7 @@ class BackendNumpy(BackendBase):
         stable: bool = False,
         out: np.ndarray | None = None,
     ) -> np.ndarray:
+        A, b, c = self._plain_arrays(A, b, c)
         return strategies.vanilla_batch_numba(tuple(shape), A, b, c, stable, out)
 
     def hermite_renormalized_binomial(
@@ -411,6 +423,7 @@ class BackendNumpy(BackendBase):
         max_l2: float | None,
         global_cutoff: int | None,
     ) -> np.ndarray:
+        A, B, C = self._plain_arrays(A, B, C)
         return strategies.binomial(
             tuple(shape),
             A,
@@ -428,6 +441,7 @@ class BackendNumpy(BackendBase):
         cutoffs: tuple[int],
         reorderedAB: bool,
     ) -> np.ndarray:
+        A, B, C = self._plain_arrays(A, B, C)
         A, B = self.reorder_AB_bargmann(A, B) if reorderedAB else (A, B)
         return hermite_multidimensional_diagonal(A, B, C, cutoffs)[0]
 
@@ -440,6 +454,7 @@ class BackendNumpy(BackendBase):
         pnr_cutoffs: tuple[int, ...],
         reorderedAB: bool = True,
     ) -> np.ndarray:
+        A, b, c = self._plain_arrays(A, b, c)
         if not reorderedAB:
             # ``fast_diagonal`` takes the indices as [mode0,mode1,...,mode0,mode1,...]
             ordering = np.arange(A.shape[0]).reshape(-1, 2).T.flatten()
-- 
2.43.0


From 2e65a4c31db9e8e40831c9bac04ff3282455f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:59 +0000
Subject: [PATCH 64/70] fix: contracting arrays over batch dimensions of
 different sizes dropped entries silently

---
 mrmustard/physics/ansatz/array_ansatz.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 5b4972d..a484f20 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -186,7 +186,8 @@ class ArrayAnsatz(Ansatz):
             The contracted ArrayAnsatz.
 
         Raises:
-            ValueError: If index sequences have incorrect length or invalid labels.
+            ValueError: If index sequences have incorrect length or invalid labels, or if the
+                sizes of a shared batch dimension are different.
         """
         if len(idx1) != len(self.array.shape):
             raise ValueError(f"expected len(idx1)={self.array.ndim} got {len(idx1)}")
@@ -218,6 +219,10 @@ class ArrayAnsatz(Ansatz):
             dim2 = array2.shape[pos2]
 
             if dim1 != dim2:
+                if pos1 < self.batch_dims or pos2 < other.batch_dims:
+                    raise ValueError(
+                        f"Batch dimension {label} has inconsistent sizes: got {dim1} and {dim2}.",
+                    )
                 min_dim = min(dim1, dim2)
                 slices1[pos1] = slice(0, min_dim)
                 slices2[pos2] = slice(0, min_dim)
-- 
2.43.0


From f129d558e81b904876a457c2dc93903217a7ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:59 +0000
Subject: [PATCH 65/70] fix: one singular element of a batch made all of the
 elements of a Gaussian integral infinite

---
 mrmustard/physics/gaussian_integrals.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/gaussian_integrals.py b/mrmustard/physics/gaussian_integrals.py
index 79a2ddf..e45e23d 100644
--- a/mrmustard/physics/gaussian_integrals.py
+++ b/mrmustard/physics/gaussian_integrals.py
@@ -396,7 +396,7 @@ def true_branch_complex_gaussian_integral_1(m, M, bM, det_M, log_c, D, R, bR):
 def false_branch_complex_gaussian_integral_1(m, M, bM, det_M, log_c, D, R, bR):
     r"""
     False branch of the complex gaussian_integral_1 function.
-    Exectued if the matrix M is singular.
+    Executed if the matrix M (of an element of the batch) is singular.
 
     Args:
         m: the number of pairs of conjugate variables to integrate over
@@ -411,7 +411,23 @@ def false_branch_complex_gaussian_integral_1(m, M, bM, det_M, log_c, D, R, bR):
     Returns:
         The post-integration parameters
     """
-    return math.infinity_like(R), math.infinity_like(bR), math.infinity_like(log_c)
+    if len(M.shape) == 2:
+        return math.infinity_like(R), math.infinity_like(bR), math.infinity_like(log_c)
+
+    # only the elements of the batch whose M is singular are infinite
+    singular = math.cast(math.abs(det_M) <= 1e-12, "complex128")
+    infinity = math.gather(
+        math.astensor([0.0, np.inf], dtype="complex128"),
+        math.cast(math.real(singular), "int64"),
+    )
+    mask = singular[..., None, None]
+    M = M * (1 - mask) + math.eye(M.shape[-1], dtype=M.dtype) * mask
+    post = true_branch_complex_gaussian_integral_1(m, M, bM, math.det(M), log_c, D, R, bR)
+    ret = []
+    for x in post:
+        shape = singular.shape + (1,) * (len(x.shape) - len(singular.shape))
+        ret.append(x * math.reshape(1 - singular, shape) + math.reshape(infinity, shape))
+    return tuple(ret)
 
 
 def complex_gaussian_integral_1(
-- 
2.43.0


From 372a2b4cb6eb64557eb7ac407c3f7d96d3b697d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:59 +0000
Subject: [PATCH 66/70] fix: a batch of phase_stdev was broadcast along the
 Fock indices

---
 mrmustard/lab/transformations/phasenoise.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mrmustard/lab/transformations/phasenoise.py b/mrmustard/lab/transformations/phasenoise.py
index 8af1492..d9e6487 100644
--- a/mrmustard/lab/transformations/phasenoise.py
+++ b/mrmustard/lab/transformations/phasenoise.py
@@ -95,19 +95,26 @@ class PhaseNoise(Channel):
         if not other.wires.bra or not other.wires.ket:
             other = other.contract(other.adjoint, "zip")
         other = other.to_fock()
-        array = other.fock_array()
         indices = np.indices(other.ansatz.core_shape)
+        # the batch dimensions of ``phase_stdev`` come after those of ``other``
+        phase_stdev = self.parameters.phase_stdev.value
+        phase_batch = phase_stdev.shape
+        phase_stdev = math.reshape(phase_stdev, phase_batch + (1,) * other.ansatz.core_dims)
+        array = math.reshape(
+            other.fock_array(),
+            other.ansatz.batch_shape + (1,) * len(phase_batch) + other.ansatz.core_shape,
+        )
         out_bra, out_ket = other.wires.output.bra, other.wires.output.ket
         for mode in self.modes:
             if mode not in out_bra.modes or mode not in out_ket.modes:
                 raise ValueError(f"Cannot apply {self.name} on mode {mode} of {other}.")
             bra, ket = out_bra[mode].indices[0], out_ket[mode].indices[0]
             phase_factors = math.exp(
-                -0.5 * (indices[bra] - indices[ket]) ** 2 * self.parameters.phase_stdev.value**2,
+                -0.5 * (indices[bra] - indices[ket]) ** 2 * phase_stdev**2,
             )
             array = array * phase_factors
         return CircuitComponent._from_attributes(
-            ArrayAnsatz(array, batch_dims=other.ansatz.batch_dims),
+            ArrayAnsatz(array, batch_dims=other.ansatz.batch_dims + len(phase_batch)),
             other.wires.copy(),
             self.name,
         )
-- 
2.43.0


From 2aa81e23a97c9a2077ae0d0f5860478b224e4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:59 +0000
Subject: [PATCH 67/70] fix: inverse of superposed or polynomial
 transformations returned a component that is not their inverse

---
 mrmustard/lab/transformations/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 2d26440..8c6fa1b 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -158,6 +158,8 @@ class Transformation(CircuitComponent):
             )
         if not isinstance(self.ansatz, PolyExpAnsatz):  # pragma: no cover
             raise NotImplementedError("Only Bargmann representation is supported.")
+        if self.ansatz.num_derived_vars or self.ansatz._lin_sup:
+            raise NotImplementedError("Only Gaussian transformations are supported.")
 
         A_orig, b_orig, c_orig = self.ansatz.triple
         A, b, _ = self.dual.ansatz.conj.triple
-- 
2.43.0


From e77f628bfdb7e1516cc49631375458a492b2c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:59 +0000
Subject: [PATCH 68/70] fix: to_bargmann took the batch dimensions of an array
 for derived variables

---
 mrmustard/lab/circuit_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index e2e3744..897e397 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -701,6 +701,9 @@ class CircuitComponent:
         else:
             A, b, _ = identity_Abc(len(self.wires.quantum))
             c = self.ansatz.data
+            batch_shape = self.ansatz.batch_shape
+            A = math.broadcast_to(A, batch_shape + A.shape)
+            b = math.broadcast_to(b, batch_shape + b.shape)
         ansatz = PolyExpAnsatz(A, b, c)
         wires = self.wires.copy()
         for w in wires.quantum:
-- 
2.43.0


From 0922f0618d97bf5aa0f453f0071f0d7436ea36d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:59 +0000
Subject: [PATCH 69/70] fix: applying a batch of unitaries to a density matrix
 paired different elements of the batch

---
 mrmustard/lab/circuit_components.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 897e397..9146105 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -1066,7 +1066,13 @@ class CircuitComponent:
         elif self_needs_bra or self_needs_ket:
             ret = self.adjoint.contract(self.contract(other), "zip")
         elif other_needs_bra or other_needs_ket:
-            ret = self.contract(other.adjoint).contract(other)
+            # the batch dimensions of ``other`` are those of its adjoint
+            batch_dims = [c.ansatz.batch_dims - c.ansatz._lin_sup for c in (self, other)]
+            batch1, batch2 = outer_product_batch_str(*batch_dims).split("->")[0].split(",")
+            ret = self.contract(other.adjoint).contract(
+                other,
+                f"{batch1}{batch2},{batch2}->{batch1}{batch2}",
+            )
         else:
             msg = f"``>>`` not supported between {self} and {other} because it's not clear "
             msg += "whether or where to add bra wires. Use ``@`` instead and specify all the components."
-- 
2.43.0


From 317144072696e6ea93aed34fc0a8d1eacba1a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:02 +0000
Subject: [PATCH 70/70] fix: Gaussian integrals over two or more pairs of
 variables had the wrong sign when the phase of the determinant exceeds pi

---
 mrmustard/lab/transformations/base.py   |  3 +-
 mrmustard/math/backend_jax.py           |  3 ++
 mrmustard/math/backend_manager.py       | 11 +++++
 mrmustard/math/backend_numpy.py         |  3 ++
 mrmustard/physics/gaussian_integrals.py | 54 ++++++++++++++++++++++++-
 5 files changed, 72 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 8c6fa1b..08e6f79 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -35,6 +35,7 @@ from mrmustard.physics.bargmann_utils import (
     is_hermitian_positive_triple,
     symplectic2Au,
 )
+from mrmustard.physics.gaussian_integrals import complex_gaussian_prefactor
 from mrmustard.physics.triples import XY_to_channel_Abc
 from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import ComplexMatrix, ComplexTensor, RealMatrix, Vector
@@ -179,7 +180,7 @@ class Transformation(CircuitComponent):
         c_of_inverse = (
             1
             / c_orig
-            * math.sqrt(math.cast(math.det(1j * M), dtype=math.complex128))
+            / complex_gaussian_prefactor(M, math.det(M))
             * math.exp(
                 0.5 * math.einsum("...i,...ij,...j->...", combined_b, math.inv(M), combined_b),
             )
diff --git a/mrmustard/math/backend_jax.py b/mrmustard/math/backend_jax.py
index 58f4681..82bae87 100644
--- a/mrmustard/math/backend_jax.py
+++ b/mrmustard/math/backend_jax.py
@@ -333,6 +333,9 @@ class BackendJax(BackendBase):
     def infinity_like(self, array: jnp.ndarray) -> jnp.ndarray:
         return jnp.full_like(array, jnp.inf, dtype="complex128")
 
+    def stop_gradient(self, array: jnp.ndarray) -> jnp.ndarray:
+        return jax.lax.stop_gradient(array)
+
     def conditional(
         self,
         cond: jnp.ndarray,
diff --git a/mrmustard/math/backend_manager.py b/mrmustard/math/backend_manager.py
index 2a04f3a..9dac3c5 100644
--- a/mrmustard/math/backend_manager.py
+++ b/mrmustard/math/backend_manager.py
@@ -1433,6 +1433,17 @@ class BackendManager:
         """
         return self._apply("infinity_like", (array,))
 
+    def stop_gradient(self, array: Tensor) -> Tensor:
+        r"""Returns ``array`` as a constant for the purpose of automatic differentiation.
+
+        Args:
+            array: The array to treat as a constant.
+
+        Returns:
+            The array.
+        """
+        return self._apply("stop_gradient", (array,))
+
     def zeros_like(self, array: Tensor) -> Tensor:
         r"""Returns an array of zeros with the same shape and ``dtype`` as ``array``.
 
diff --git a/mrmustard/math/backend_numpy.py b/mrmustard/math/backend_numpy.py
index 91e3d63..cbae644 100644
--- a/mrmustard/math/backend_numpy.py
+++ b/mrmustard/math/backend_numpy.py
@@ -225,6 +225,9 @@ class BackendNumpy(BackendBase):
     def infinity_like(self, array: np.ndarray) -> np.ndarray:
         return np.full_like(array, np.inf)
 
+    def stop_gradient(self, array: np.ndarray) -> np.ndarray:
+        return array
+
     def conditional(
         self,
         cond: np.ndarray,
diff --git a/mrmustard/physics/gaussian_integrals.py b/mrmustard/physics/gaussian_integrals.py
index e45e23d..548a2fe 100644
--- a/mrmustard/physics/gaussian_integrals.py
+++ b/mrmustard/physics/gaussian_integrals.py
@@ -354,6 +354,58 @@ def join_Abc(
     return A, b, math.exp(log_c)
 
 
+def complex_gaussian_prefactor(M, det_M):
+    r"""
+    The prefactor :math:`\sqrt{(-1)^m / \det M}` of the complex Gaussian integral with quadratic
+    form ``M`` over ``m`` pairs of conjugate variables.
+
+    When the integral converges, the branch of the square root is the one obtained by integrating
+    one real variable at a time, which for two or more pairs can differ from the principal one.
+
+    Args:
+        M: the matrix of the quadratic form
+        det_M: the determinant of M
+
+    Returns:
+        The prefactor of the integral.
+    """
+    m = M.shape[-1] // 2
+    prefactor = math.sqrt(math.cast((-1) ** m / det_M, "complex128"))
+    if m < 2:
+        return prefactor
+
+    # the quadratic form of the real and imaginary parts of the variables
+    eye = math.eye(m, dtype="complex128")
+    W = math.block([[eye, 1j * eye], [eye, -1j * eye]]) / np.sqrt(2)
+    Q = -math.einsum("ji,...jk,kl->...il", W, math.cast(M, "complex128"), W)
+    return prefactor * math.conditional(
+        math.abs(det_M) < np.inf,
+        branch_sign,
+        lambda Q, x: math.ones_like(x),
+        math.stop_gradient(Q),
+        math.stop_gradient(prefactor),
+    )
+
+
+def branch_sign(Q, inv_sqrt_det):
+    r"""
+    The sign that turns ``inv_sqrt_det``, a square root of :math:`1 / \det Q`, into the product of
+    the principal square roots of the inverses of the eigenvalues of ``Q``. The sign is ``1`` if the
+    real part of ``Q`` is not positive, where the Gaussian integral with quadratic form ``Q`` diverges.
+
+    Args:
+        Q: a symmetric matrix.
+        inv_sqrt_det: a square root of the inverse of the determinant of ``Q``.
+
+    Returns:
+        The sign.
+    """
+    convergent = math.eigh(math.real(Q))[0][..., 0] > -1e-10
+    phase = 0.5 * math.sum(math.angle(math.eigvals(Q)), axis=-1)
+    flipped = math.real(inv_sqrt_det * math.exp(1j * phase)) < 0
+    return math.cast(1 - 2 * math.cast(convergent & flipped, "float64"), "complex128")
+
+
 def true_branch_complex_gaussian_integral_1(m, M, bM, det_M, log_c, D, R, bR):
     r"""
     True branch of the complex gaussian_integral_1 function.
@@ -378,7 +430,7 @@ def true_branch_complex_gaussian_integral_1(m, M, bM, det_M, log_c, D, R, bR):
     inv_M = math.inv(M)
     M_bM = math.solve(M, bM)
 
-    log_c_factor = math.log(math.sqrt(math.cast((-1) ** m / det_M, "complex128"))) + (
+    log_c_factor = math.log(complex_gaussian_prefactor(M, det_M)) + (
         -0.5 * math.sum(bM * M_bM, axis=-1)
     )
     log_c_reshaped = math.reshape(log_c_factor, batch_shape + (1,) * (len(log_c.shape[batch_dim:])))
-- 
2.43.0

