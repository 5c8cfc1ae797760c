From 0e9f2277c63464a816f40a79800c6f64595e6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:59 +0000
Subject: [PATCH 01/25] fix: propagate evidence in every tree of a disconnected
 BBN's join forest

---
 pybbn/pptc/propagator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pybbn/pptc/propagator.py b/pybbn/pptc/propagator.py
index 773b188..3e01404 100644
--- a/pybbn/pptc/propagator.py
+++ b/pybbn/pptc/propagator.py
@@ -18,13 +18,17 @@ class Propagator(object):
         cliques = join_tree.get_cliques()
         cliques = sorted(cliques, key=lambda c: c.id)
         # cliques = sorted(cliques, key=lambda c: c.get_sid())
-        x = cliques[0]
 
+        # a disconnected BBN gives a forest; every tree needs its own start clique
         join_tree.unmark_cliques()
-        Propagator.collect_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                Propagator.collect_evidence(join_tree, x)
 
         join_tree.unmark_cliques()
-        Propagator.distribute_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                Propagator.distribute_evidence(join_tree, x)
 
         return join_tree
 
-- 
2.43.0


From 6dea4d07c60e93119ea55a840abf3ff8d8ac66c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:19 +0000
Subject: [PATCH 02/25] fix: LogicSampler rejects samples that contradict
 evidence on the last nodes (and terminates for n_samples=0)

---
 pybbn/sampling/sampling.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 7793a81..9a0d75a 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -145,7 +145,7 @@ class LogicSampler(object):
         np.random.seed(seed)
         n = len(self.nodes)
         samples = []
-        while True:
+        while len(samples) < n_samples:
             sample = copy.deepcopy(evidence)
 
             probs = np.random.uniform(0.0, 1.0, size=n)
@@ -156,11 +156,7 @@ class LogicSampler(object):
                 if node_id in evidence and val != evidence[node_id]:
                     break
                 sample[node_id] = val
-
-            if len(sample) == n:
+            else:
                 samples.append(sample)
 
-            if len(samples) == n_samples:
-                break
-
         return samples
-- 
2.43.0


From e5c5de3a5b51509520435f2f5435ef0729ffc277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:40 +0000
Subject: [PATCH 03/25] fix: LogicSampler orders nodes with a real topological
 sort

---
 pybbn/sampling/sampling.py | 39 ++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 9a0d75a..6c53d20 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -1,7 +1,7 @@
 import bisect
 import copy
+import heapq
 import itertools
-from functools import cmp_to_key
 
 import numpy as np
 
@@ -115,23 +115,34 @@ class LogicSampler(object):
 
     def __topological_sort__(self):
         """
-        Performs topological sort of nodes.
+        Performs topological sort of nodes (ties are broken by node ID).
 
         :return: List of node IDs that is topologically sorted.
         """
-        nodes = [
-            SortableNode(node.id, set(self.bbn.get_parents_ordered(node.id)))
+        nodes = {
+            node.id: SortableNode(node.id, set(self.bbn.get_parents_ordered(node.id)))
             for node in self.bbn.get_nodes()
-        ]
-        id_sorter = lambda x, y: -1 if x < y else 1 if x > y else 0
-        pa_sorter = lambda x, y: (
-            -1
-            if x.node_id in y.parent_ids
-            else 1 if y.node_id in x.parent_ids else id_sorter(x.node_id, y.node_id)
-        )
-        nodes = sorted(nodes, key=cmp_to_key(pa_sorter))
-        nodes = [n.node_id for n in nodes]
-        return nodes
+        }
+
+        children = {node_id: [] for node_id in nodes}
+        n_parents = {node_id: len(node.parent_ids) for node_id, node in nodes.items()}
+        for node_id, node in nodes.items():
+            for parent_id in node.parent_ids:
+                children[parent_id].append(node_id)
+
+        ready = [node_id for node_id, total in n_parents.items() if total == 0]
+        heapq.heapify(ready)
+
+        sorted_nodes = []
+        while len(ready) > 0:
+            node_id = heapq.heappop(ready)
+            sorted_nodes.append(node_id)
+            for child_id in children[node_id]:
+                n_parents[child_id] -= 1
+                if n_parents[child_id] == 0:
+                    heapq.heappush(ready, child_id)
+
+        return sorted_nodes
 
     def get_samples(self, evidence={}, n_samples=100, seed=37):
         """
-- 
2.43.0


From b1f995f5a2d1060be72f79c3a989a38cc56e1271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 04/25] fix: LogicSampler reads CPTs in the parent order exact
 inference uses

---
 pybbn/sampling/sampling.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 6c53d20..07b6084 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -28,28 +28,29 @@ class Table(object):
     of node values.
     """
 
-    def __init__(self, node, parents=[]):
+    def __init__(self, node, parents=[], cpt_parents=None):
         """
         Ctor.
 
         :param node: BBN node.
         :param parents: List of parent BBN nodes.
+        :param cpt_parents: List of parent BBN nodes in the order used by the CPT (default is by ID).
         """
         self.node = node
         self.parents = sorted(parents, key=lambda n: n.id)
-        self.parent_ids = [p.id for p in parents]
+        self.parent_ids = [p.id for p in self.parents]
 
         if len(parents) == 0:
             self.probs = np.array([node.probs]).cumsum()
         else:
+            cpt_parents = self.parents if cpt_parents is None else cpt_parents
+            cpt_ids = [p.id for p in cpt_parents]
             cartesian = list(
-                itertools.product(*[node.variable.values for node in self.parents])
+                itertools.product(*[node.variable.values for node in cpt_parents])
             )
             get_kv = lambda i, v: f"{i}={v}"
             keys = [
-                ",".join(
-                    [get_kv(node.id, val) for node, val in zip(self.parents, values)]
-                )
+                ",".join([get_kv(i, val) for i, val in sorted(zip(cpt_ids, values))])
                 for values in cartesian
             ]
             n = len(node.variable.values)
@@ -104,13 +105,13 @@ class LogicSampler(object):
 
         :return: Dictionary of node ID to Table.
         """
-        tables = [node for node in self.bbn.get_nodes()]
-        tables = [(node, self.bbn.get_parents_ordered(node.id)) for node in tables]
-        tables = [
-            (node, [self.bbn.get_node(pa_id) for pa_id in parents])
-            for node, parents in tables
-        ]
-        tables = {node.id: Table(node, parents) for node, parents in tables}
+        tables = {}
+        for node in self.bbn.get_nodes():
+            # exact inference reads a CPT in the order that the edges were added
+            parents = [
+                self.bbn.get_node(pa_id) for pa_id in self.bbn.parents.get(node.id, [])
+            ]
+            tables[node.id] = Table(node, parents, cpt_parents=parents)
         return tables
 
     def __topological_sort__(self):
-- 
2.43.0


From cc63e202e8586841cb89cf79b68de3c3c940291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 05/25] fix: likelihoods strictly between 0 and 1 are not an
 observation

---
 pybbn/graph/jointree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index a67e2f9..23d358a 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -796,7 +796,7 @@ class Evidence(object):
         for k, v in values.items():
             if 1.0 == v:
                 one += 1
-            else:
+            elif 0.0 == v:
                 zero += 1
 
         return 1 == one and len(values) - 1 == zero
-- 
2.43.0


From 644c2de2f70ae632a5e36a082c62e3153494815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 06/25] fix: set_observation toggles only a true observation of
 the same value

---
 pybbn/graph/jointree.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 23d358a..d1fec70 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -385,27 +385,16 @@ class JoinTree(Ug):
         :param evidence: Evidence.
         :return: This join tree.
         """
-        potentials = self.evidences[evidence.node.id]
-
-        pvalues = []
-        for v, potential in potentials.items():
-            entry = potential.entries[0]
-            p = entry.value
-            if 1.0 == p:
-                pvalues.append(v)
-
-        cvalues = []
-        for v, likelihood in evidence.values.items():
-            if 1.0 == likelihood:
-                cvalues.append(v)
-
-        if 1 == len(pvalues):
-            last_value = pvalues[0]
-            curr_value = cvalues[0]
-            if last_value == curr_value:
-                self.unobserve([evidence.node])
-            else:
-                self.update_evidences([evidence])
+        evidence.validate()
+        current = Evidence.__convert__(self.evidences[evidence.node.id])
+
+        if (
+            Evidence.__is_observed__(current)
+            and Evidence.__is_observed__(evidence.values)
+            and Evidence.__get_observed_value__(current)
+            == Evidence.__get_observed_value__(evidence.values)
+        ):
+            self.unobserve([evidence.node])
         else:
             self.update_evidences([evidence])
 
-- 
2.43.0


From 7ca9d130fad96dabb6553cd97e54174324978b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 07/25] fix: JoinTree.from_dict keeps cliques that have no
 separation set

---
 pybbn/graph/jointree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index d1fec70..d7d06d5 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -481,11 +481,10 @@ class JoinTree(Ug):
         edges = [JtEdge(sepsets[e]) for e in d["jt"]["edges"]]
 
         jt = JoinTree()
-        if len(edges) > 0:
-            for e in edges:
-                jt.add_edge(e)
-        else:
-            jt.nodes = cliques
+        for c in cliques.values():
+            jt.add_node(c)
+        for e in edges:
+            jt.add_edge(e)
 
         jt.parent_info = {int(k): v for k, v in d["jt"]["parent_info"].items()}
         return jt
-- 
2.43.0


From 7e4229be4b213312dd2df4e2fc701855b8695f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:29 +0000
Subject: [PATCH 08/25] fix: a deep copy of a join tree keeps its listener, so
 it still reacts to evidence

---
 pybbn/graph/jointree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index d7d06d5..d762fc0 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -42,6 +42,7 @@ class JoinTree(Ug):
         jt.potentials = potentials
         jt.evidences = evidences
         jt.parent_info = parent_info
+        jt.listener = deepcopy(self.listener, memodict)
         return jt
 
     def get_posteriors(self):
-- 
2.43.0


From d717a1d8a2a2e3b5914073e3b84e7ab027dad64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 09/25] fix: InferenceController.apply works on a BBN that
 changed since an earlier apply

---
 pybbn/pptc/inferencecontroller.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybbn/pptc/inferencecontroller.py b/pybbn/pptc/inferencecontroller.py
index c32813b..4e50464 100644
--- a/pybbn/pptc/inferencecontroller.py
+++ b/pybbn/pptc/inferencecontroller.py
@@ -22,13 +22,17 @@ class InferenceController(JoinTreeListener):
         :param bbn: BBN graph.
         :return: Join tree.
         """
+        for node in bbn.get_nodes():
+            # left by an earlier call; the BBN may have changed since
+            node.metadata.pop("parent.clique", None)
+
         PotentialInitializer.init(bbn)
 
         ug = Moralizer.moralize(bbn)
         cliques = Triangulator.triangulate(ug)
         join_tree = Transformer.transform(cliques)
         join_tree.parent_info = {
-            node.id: bbn.parents[node.id]
+            node.id: list(bbn.parents[node.id])
             for node in bbn.get_nodes()
             if node.id in bbn.parents
         }
-- 
2.43.0


From 0c28c484d2915b624320fb64ca96a7602a6ba71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 10/25] fix: Bbn rejects edges that would make a cycle, like
 every Dag

---
 pybbn/graph/dag.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 7b12247..8a5ae96 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -150,9 +150,7 @@ class Bbn(Dag):
         :param edge: Directed edge.
         :return: A boolean indicating if the directed edge should be added.
         """
-        if isinstance(edge.i, BbnNode) and isinstance(edge.j, BbnNode):
-            return True
-        return Dag.__shouldadd__(edge)
+        return Dag.__shouldadd__(self, edge)
 
     @staticmethod
     def to_csv(bbn, path):
-- 
2.43.0


From a33541011816416f2c449b343ba6861888eef507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 11/25] fix: path detection does not recurse, so long paths do
 not exceed the recursion limit

---
 pybbn/graph/dag.py      | 15 +++++++++------
 pybbn/graph/jointree.py | 25 +++++++++++++------------
 pybbn/graph/pdag.py     | 15 +++++++++------
 3 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 8a5ae96..acc77d3 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -385,15 +385,18 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        children = self.graph.get_children(i)
-        if self.stop in children:
-            return True
-
+        stack = [i]
         self.seen.add(i)
-        for child in children:
-            if child not in self.seen and self.__find__(child):
+        while len(stack) > 0:
+            children = self.graph.get_children(stack.pop())
+            if self.stop in children:
                 return True
 
+            for child in children:
+                if child not in self.seen:
+                    self.seen.add(child)
+                    stack.append(child)
+
         return False
 
 
diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index d762fc0..73cc05a 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -570,21 +570,22 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        neighbors = set()
-
-        try:
-            neighbors = self.graph.get_neighbors(i)
-        except KeyError:
-            pass
-
-        if self.stop in neighbors:
-            return True
-
+        stack = [i]
         self.seen.add(i)
-        for neighbor in neighbors:
-            if neighbor not in self.seen and self.__find__(neighbor):
+        while len(stack) > 0:
+            try:
+                neighbors = self.graph.get_neighbors(stack.pop())
+            except KeyError:
+                continue
+
+            if self.stop in neighbors:
                 return True
 
+            for neighbor in neighbors:
+                if neighbor not in self.seen:
+                    self.seen.add(neighbor)
+                    stack.append(neighbor)
+
         return False
 
 
diff --git a/pybbn/graph/pdag.py b/pybbn/graph/pdag.py
index c51fe21..e1ee9f1 100644
--- a/pybbn/graph/pdag.py
+++ b/pybbn/graph/pdag.py
@@ -119,13 +119,16 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        out_nodes = self.graph.get_out_nodes(i)
-        if self.stop in out_nodes:
-            return True
-
+        stack = [i]
         self.seen.add(i)
-        for out_node in out_nodes:
-            if out_node not in self.seen and self.__find__(out_node):
+        while len(stack) > 0:
+            out_nodes = self.graph.get_out_nodes(stack.pop())
+            if self.stop in out_nodes:
                 return True
 
+            for out_node in out_nodes:
+                if out_node not in self.seen:
+                    self.seen.add(out_node)
+                    stack.append(out_node)
+
         return False
-- 
2.43.0


From 7e1ad91db82e6aac8f59803cbe20e28a54ce4910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:51 +0000
Subject: [PATCH 12/25] fix: evidence passing does not recurse along the join
 tree

---
 pybbn/pptc/evidencecollector.py   | 31 ++++++++++++++++---------------
 pybbn/pptc/evidencedistributor.py | 20 +++++++++-----------
 2 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/pybbn/pptc/evidencecollector.py b/pybbn/pptc/evidencecollector.py
index dedcd2a..f4bd1cc 100644
--- a/pybbn/pptc/evidencecollector.py
+++ b/pybbn/pptc/evidencecollector.py
@@ -58,18 +58,19 @@ class EvidenceCollector(object):
         :param s: Separation-set.
         :param y: Clique.
         """
-
-        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
-
-        s_arr = []
-        c_arr = []
-        for sep, cli in zip(sepsets, cliques):
-            if not cli[1].is_marked():
-                cli[1].mark()
-                s_arr.append(sep)
-                c_arr.append(cli)
-
-        for sep, cli in zip(s_arr, c_arr):
-            self.__walk__(y, sep[1], cli[1])
-
-        PotentialUtil.pass_single_message(self.join_tree, y, s, x)
+        messages = []
+        stack = [(x, s, y)]
+
+        while len(stack) > 0:
+            x, s, y = stack.pop()
+            messages.append((y, s, x))
+
+            sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
+            for sep, cli in zip(sepsets, cliques):
+                if not cli[1].is_marked():
+                    cli[1].mark()
+                    stack.append((y, sep[1], cli[1]))
+
+        # the farthest cliques send their messages first
+        for y, s, x in reversed(messages):
+            PotentialUtil.pass_single_message(self.join_tree, y, s, x)
diff --git a/pybbn/pptc/evidencedistributor.py b/pybbn/pptc/evidencedistributor.py
index a573628..83e6759 100644
--- a/pybbn/pptc/evidencedistributor.py
+++ b/pybbn/pptc/evidencedistributor.py
@@ -66,16 +66,14 @@ class EvidenceDistributor(object):
         :param s: Separation-set.
         :param y: Clique.
         """
-        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
+        stack = [y]
 
-        s_arr = []
-        c_arr = []
-        for sep, cli in zip(sepsets, cliques):
-            if not cli[1].is_marked():
-                cli[1].mark()
-                s_arr.append(sep)
-                c_arr.append(cli)
+        while len(stack) > 0:
+            y = stack.pop()
 
-        for sep, cli in zip(s_arr, c_arr):
-            PotentialUtil.pass_single_message(self.join_tree, y, sep[1], cli[1])
-            self.__walk__(y, sep[1], cli[1])
+            sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
+            for sep, cli in zip(sepsets, cliques):
+                if not cli[1].is_marked():
+                    cli[1].mark()
+                    PotentialUtil.pass_single_message(self.join_tree, y, sep[1], cli[1])
+                    stack.append(cli[1])
-- 
2.43.0


From d97d1aa23313a8478d46d635730144567d1159cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 13/25] fix: deep copies of graphs do not recurse along chains
 of nodes

---
 pybbn/graph/graph.py    |  2 ++
 pybbn/graph/jointree.py |  3 ++-
 pybbn/graph/node.py     | 16 ++++++++++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 49b1d6f..ffd4e13 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -2,6 +2,7 @@ from collections import defaultdict
 from copy import deepcopy
 
 from pybbn.graph.edge import EdgeType
+from pybbn.graph.node import Node
 
 
 class Graph(object):
@@ -167,6 +168,7 @@ class Graph(object):
         cls = self.__class__
         result = cls.__new__(cls)
         memodict[id(self)] = result
+        Node.deepcopy_all(self.nodes.values(), memodict)
         for k, v in self.__dict__.items():
             setattr(result, k, deepcopy(v, memodict))
         return result
diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 73cc05a..3f93b53 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -4,7 +4,7 @@ from enum import Enum
 
 from pybbn.graph.edge import JtEdge
 from pybbn.graph.graph import Ug
-from pybbn.graph.node import BbnNode, Clique, SepSet
+from pybbn.graph.node import BbnNode, Clique, Node, SepSet
 from pybbn.graph.potential import Potential, PotentialEntry, PotentialUtil
 from pybbn.graph.variable import Variable
 
@@ -26,6 +26,7 @@ class JoinTree(Ug):
         # self.__all_nodes__ = None
 
     def __deepcopy__(self, memodict={}):
+        Node.deepcopy_all(self.get_bbn_nodes(), memodict)
         nodes = deepcopy(self.nodes, memodict)
         edges = deepcopy(self.edges, memodict)
         edge_map = deepcopy(self.edge_map, memodict)
diff --git a/pybbn/graph/node.py b/pybbn/graph/node.py
index 6399f34..dd3c626 100644
--- a/pybbn/graph/node.py
+++ b/pybbn/graph/node.py
@@ -39,6 +39,22 @@ class Node(object):
             setattr(result, k, deepcopy(v, memodict))
         return result
 
+    @staticmethod
+    def deepcopy_all(nodes, memodict):
+        """
+        Deep copies nodes into the memo dictionary. The nodes may refer to one another (e.g. through metadata);
+        registering every copy before filling any keeps deepcopy from recursing along chains of nodes.
+
+        :param nodes: List of nodes.
+        :param memodict: Memo dictionary.
+        """
+        nodes = [node for node in nodes if id(node) not in memodict]
+        for node in nodes:
+            memodict[id(node)] = node.__class__.__new__(node.__class__)
+        for node in nodes:
+            for k, v in node.__dict__.items():
+                setattr(memodict[id(node)], k, deepcopy(v, memodict))
+
     def __str__(self):
         return "{}".format(self.id)
 
-- 
2.43.0


From 699ae63d5245a2292da66e2500c3c14c0daad2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:48 +0000
Subject: [PATCH 14/25] fix: remove_node also removes the node's edges (and BBN
 parent lists)

---
 pybbn/graph/dag.py   | 15 +++++++++++++++
 pybbn/graph/graph.py |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index acc77d3..08aab6e 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -143,6 +143,21 @@ class Bbn(Dag):
         if edge.i.id not in self.parents[edge.j.id]:
             self.parents[edge.j.id].append(edge.i.id)
 
+    def remove_node(self, id):
+        """
+        Removes a node from the graph.
+
+        :param id: Node id.
+        """
+        Dag.remove_node(self, id)
+        self.parents.pop(id, None)
+
+        for child_id, parent_ids in list(self.parents.items()):
+            if id in parent_ids:
+                parent_ids.remove(id)
+                if len(parent_ids) == 0:
+                    self.parents.pop(child_id)
+
     def __shouldadd__(self, edge):
         """
         Checks if the specified directed edge should be added.
diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index ffd4e13..5b964aa 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -144,6 +144,9 @@ class Graph(object):
         self.nodes.pop(id, None)
         self.edge_map.pop(id, None)
         self.neighbors.pop(id, None)
+        self.edges = {
+            k: e for k, e in self.edges.items() if e.i.id != id and e.j.id != id
+        }
 
         for k, v in self.edge_map.items():
             if id in v:
-- 
2.43.0


From d3ba18671865796039f02506b5ff1605419d6968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 15/25] fix: ACE weighs parent configurations by their joint
 probability

---
 pybbn/causality/ace.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pybbn/causality/ace.py b/pybbn/causality/ace.py
index 08cf8d7..56ee25f 100644
--- a/pybbn/causality/ace.py
+++ b/pybbn/causality/ace.py
@@ -1,6 +1,4 @@
 import itertools
-import operator
-from functools import reduce
 
 from pybbn.graph.jointree import EvidenceBuilder
 from pybbn.pptc.inferencecontroller import InferenceController
@@ -49,11 +47,14 @@ class Ace(object):
             return posteriors[y][y_val]
 
         def get_z_prob(z):
+            # chain rule: the parents of X may depend on one another
             self.jt.unobserve_all()
-            posteriors = self.jt.get_posteriors()
-            probs = [posteriors[n][v] for n, v in z]
-            probs = reduce(operator.mul, probs, 1)
-            return probs
+            prob = 1.0
+            for n, v in z:
+                prob *= self.jt.get_posteriors()[n][v]
+                self.jt.update_evidences([get_evidence(n, v)])
+            self.jt.unobserve_all()
+            return prob
 
         n2i = self.bbn.get_n2i()
         i2n = self.bbn.get_i2n()
-- 
2.43.0


From 7808e4e570a6fc43f9f3f91753262facd0eaba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 16/25] fix: Factory.from_data numbers nodes by the structure,
 not by the data's values

---
 pybbn/graph/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 0e1c453..2b71589 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -205,7 +205,7 @@ class Factory(object):
             return cpts
 
         n2v = get_profile(df)
-        n2i = get_n2i(df)
+        n2i = get_n2i(structure)
         n2c = {n: get_cpt(n, structure[n], n2v, df) for n in structure}
 
         bbn = Bbn()
-- 
2.43.0


From a8ae0466647cab705815504c946bf2073245157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 17/25] fix: Factory.from_data adds edges in the order its CPTs
 use

---
 pybbn/graph/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 2b71589..9d1b04b 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -223,7 +223,7 @@ class Factory(object):
 
         for ch, parents in structure.items():
             ch_node = nodes[ch]
-            for pa in parents:
+            for pa in sorted(parents):  # the order used by get_cpt
                 pa_node = nodes[pa]
 
                 edge = Edge(pa_node, ch_node, EdgeType.DIRECTED)
-- 
2.43.0


From ca3258f2eee8caa331e9e670c6f87a25d172addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 18/25] fix: Factory.from_data counts rows without building
 query strings from names and values

---
 pybbn/graph/factory.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 9d1b04b..7dd54ab 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -3,6 +3,7 @@ import json
 from itertools import product
 
 import networkx as nx
+import numpy as np
 import pandas as pd
 from networkx.algorithms.dag import topological_sort
 
@@ -183,14 +184,14 @@ class Factory(object):
 
                 for values in domains:
                     probs = []
-                    denom_q = " and ".join(
-                        [f'{n}=="{v}"' for n, v in zip(domain_names, values)]
-                    )
+                    denom_q = np.ones(n, dtype=bool)
+                    for pa, v in zip(domain_names, values):
+                        denom_q = denom_q & (df[pa] == v).to_numpy()
                     for v in n2v[name]:
-                        numer_q = f'{name}=="{v}" and {denom_q}'
+                        numer_q = denom_q & (df[name] == v).to_numpy()
 
-                        numer = df.query(numer_q).shape[0] / n
-                        denom = df.query(denom_q).shape[0] / n
+                        numer = numer_q.sum() / n
+                        denom = denom_q.sum() / n
 
                         if denom == 0:
                             prob = 1e-5
-- 
2.43.0


From 9e02832e55bd2e3560a16b242bfc18089c30c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 19/25] fix: bbngenerator.to_json serializes NumPy integers

---
 pybbn/generator/bbngenerator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 9632457..50b5ed1 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -321,7 +321,11 @@ def to_json(g, params, pretty=False):
         "nodes": list(g.nodes),
         "edges": [{"pa": e[0], "ch": e[1]} for e in g.edges],
         "parameters": [
-            {"node": k, "params": list(v["params"].flatten()), "shape": v["shape"]}
+            {
+                "node": k,
+                "params": v["params"].flatten().tolist(),
+                "shape": [int(s) for s in v["shape"]],
+            }
             for k, v in params.items()
         ],
     }
-- 
2.43.0


From 7f01c4cc04ce34f1c5410f13113af9daf34915a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:42 +0000
Subject: [PATCH 20/25] fix: generating a one-node BBN terminates

---
 pybbn/generator/bbngenerator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 50b5ed1..7779a45 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -155,6 +155,8 @@ def __generate_multi_connected_structure__(n, max_iter=10):
     :return: Graph structure (networkx).
     """
     g = __get_simple_ordered_tree__(n)
+    if n < 2:
+        return g
     for it in range(max_iter):
         i, j = __get_random_node_pair__(n)
         if g.has_edge(i, j) is True:
@@ -173,6 +175,8 @@ def __generate_singly_structure__(n, max_iter=10):
     :return: Graph structure (networkx).
     """
     g = __get_simple_ordered_tree__(n)
+    if n < 2:
+        return g
 
     for it in range(max_iter):
         i, j = __get_random_node_pair__(n)
-- 
2.43.0


From 8a5c9eb372e6ed674ef99959d99a27a18c3f26a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 21/25] fix: Gaussian inference pairs each observation with its
 own mean

---
 pybbn/gaussian/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/gaussian/inference.py b/pybbn/gaussian/inference.py
index 4e40de0..90a8a64 100644
--- a/pybbn/gaussian/inference.py
+++ b/pybbn/gaussian/inference.py
@@ -121,7 +121,7 @@ class GaussianInference(object):
         z_index = [self.I[name] for name, _ in observations]
         y_index = [i for i in range(self.E.shape[1]) if i not in z_index]
 
-        m_Z = np.array([m for i, m in enumerate(self.M) if i in z_index])
+        m_Z = np.array([self.M[i] for i in z_index])
         m_Y = np.array([m for i, m in enumerate(self.M) if i in y_index])
 
         z = np.array([o for _, o in observations])
-- 
2.43.0


From ad57247d713e37d7be4e512139e25fe17ae3feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:20 +0000
Subject: [PATCH 22/25] fix: generated CPTs list parents in the order the
 conversions read them

---
 pybbn/generator/bbngenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 7779a45..721c331 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -299,7 +299,8 @@ def __generate_parameters__(g, max_values=2, max_alpha=10):
     num_values = __generate_num_values__(num_nodes, max_values)
     g_params = {}
     for i in g.nodes:
-        parents = list(g.predecessors(i))
+        # the conversions add parents in the order of the edges
+        parents = [pa for pa, ch in g.edges if ch == i]
         params = __generate_dirichlet_parameters__(i, parents, num_values, max_alpha)
         g_params[i] = {
             "parents": parents,
-- 
2.43.0


From 8370bfb7ab32cc980a85cb95abfb480ad4b0db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:26 +0000
Subject: [PATCH 23/25] fix: LogicSampler confused parent configurations whose
 values contain commas

---
 pybbn/sampling/sampling.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 07b6084..23eba9a 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -48,17 +48,25 @@ class Table(object):
             cartesian = list(
                 itertools.product(*[node.variable.values for node in cpt_parents])
             )
-            get_kv = lambda i, v: f"{i}={v}"
-            keys = [
-                ",".join([get_kv(i, val) for i, val in sorted(zip(cpt_ids, values))])
-                for values in cartesian
-            ]
+            keys = [self.__get_key__(sorted(zip(cpt_ids, values))) for values in cartesian]
             n = len(node.variable.values)
 
             probs = [node.probs[i : i + n] for i in range(0, len(node.probs), n)]
             probs = [np.array(p).cumsum() for p in probs]
             self.probs = {k: p for k, p in zip(keys, probs)}
 
+    @staticmethod
+    def __get_key__(pairs):
+        """
+        Gets the text key of a parent instantiation. Commas inside of values are escaped so that
+        different instantiations have different keys.
+
+        :param pairs: List of (parent ID, value).
+        :return: Key.
+        """
+        escape = lambda v: f"{v}".replace("\\", "\\\\").replace(",", "\\,")
+        return ",".join([f"{i}={escape(v)}" for i, v in pairs])
+
     def get_value(self, prob, sample=None):
         """
         Gets the value associated with the specified probability.
@@ -70,7 +78,7 @@ class Table(object):
         if not self.has_parents():
             index = bisect.bisect(self.probs, prob)
         else:
-            k = ",".join([f"{i}={sample[i]}" for i in self.parent_ids])
+            k = self.__get_key__([(i, sample[i]) for i in self.parent_ids])
             probs = self.probs[k]
             index = bisect.bisect(probs, prob)
         return self.node.variable.values[index]
-- 
2.43.0


From daecbb18f4d8e8cf640445d6b6ac37a601f2f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:52 +0000
Subject: [PATCH 24/25] fix: an update that names an unknown value left the
 rest of its evidence behind

update_evidences stored one likelihood after the other and raised KeyError at
the first value the variable does not have: what came before stayed in the
join tree without being propagated, and giving it again was then taken for no
change. All values are looked up before any is stored.
---
 pybbn/graph/jointree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 3f93b53..b76400e 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -370,13 +370,17 @@ class JoinTree(Ug):
         for evidence in evidences:
             evidence.validate()
         change = self.get_change_type(evidences)
+        # look everything up first: an unknown value must not leave a part of the evidence behind
+        updates = []
         for evidence in evidences:
             node = evidence.node
             potentials = self.evidences[node.id]
 
             for k, v in evidence.values.items():
                 potential = potentials[k]
-                potential.entries[0].value = v
+                updates.append((potential, v))
+        for potential, v in updates:
+            potential.entries[0].value = v
         self.__notify_listener__(change)
         return self
 
-- 
2.43.0


From 6d4c11ee00c24298061c939a112cb7aac2db86e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:06 +0000
Subject: [PATCH 25/25] fix: a failed compilation broke the trees compiled
 before from the same network

InferenceController.apply dropped each node's parent clique before it read the
CPTs: if one of them could not be read, get_posteriors of an earlier join tree
raised KeyError. The entries are dropped when the new tree is there.
---
 pybbn/pptc/inferencecontroller.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybbn/pptc/inferencecontroller.py b/pybbn/pptc/inferencecontroller.py
index 4e50464..ad0140b 100644
--- a/pybbn/pptc/inferencecontroller.py
+++ b/pybbn/pptc/inferencecontroller.py
@@ -22,10 +22,6 @@ class InferenceController(JoinTreeListener):
         :param bbn: BBN graph.
         :return: Join tree.
         """
-        for node in bbn.get_nodes():
-            # left by an earlier call; the BBN may have changed since
-            node.metadata.pop("parent.clique", None)
-
         PotentialInitializer.init(bbn)
 
         ug = Moralizer.moralize(bbn)
@@ -37,6 +33,10 @@ class InferenceController(JoinTreeListener):
             if node.id in bbn.parents
         }
 
+        for node in bbn.get_nodes():
+            # left by an earlier call; the BBN may have changed since
+            node.metadata.pop("parent.clique", None)
+
         Initializer.initialize(join_tree)
         Propagator.propagate(join_tree)
 
-- 
2.43.0

