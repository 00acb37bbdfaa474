From 7095c08d1a45a2cbd9635460b5762f3d1f47e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 01/31] fix: build a junction tree for networks that are not
 connected

build_join_tree raised IndexError or looped forever when the remaining cliques
shared no variables, e.g. after an intervention that separates the network.
Join the remaining trees by empty sepsets.
---
 causalnex/ebaybbn/bbn.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index ee53e5c..9f75aea 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -995,7 +995,6 @@ def build_join_tree(dag, clique_priority_func=priority_func):
         # Adding in name to make this sort deterministic
         deco = [(s, -1 * s.mass, s.cost, s.__repr__()) for s in S]
         deco.sort(key=lambda x: x[1:])
-        candidate_sepset = deco[0][0]
         for candidate_sepset, _, _, _ in deco:
             if candidate_sepset.insertable(forest):
                 # Insert into forest and remove the sepset
@@ -1003,6 +1002,15 @@ def build_join_tree(dag, clique_priority_func=priority_func):
                 S.remove(candidate_sepset)
                 sepsets_inserted += 1
                 break
+        else:
+            # The trees left in the forest share no variables,
+            # which happens when the network is not connected.
+            # Any two of them can be joined by an empty sepset.
+            X_tree, Y_tree = list(forest)[:2]
+            SepSet(X_tree.clique_nodes[0].clique, Y_tree.clique_nodes[0].clique).insert(
+                forest
+            )
+            sepsets_inserted += 1
 
     assert len(forest) == 1
     jt = list(forest)[0]
-- 
2.43.0


From 27012b1373fb26ee27e7b68bc26cdc1b1359a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 02/31] fix: do not exceed the recursion limit when querying
 networks with long paths

copy.deepcopy of the undirected graph recursed along neighbours, so that
networks with a path of more than about 160 variables could not be queried.
---
 causalnex/ebaybbn/bbn.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 9f75aea..725efab 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -841,10 +841,22 @@ def make_undirected_copy(dag):
     return g
 
 
+def copy_undirected_graph(graph):
+    """Returns a copy of the undirected graph whose
+    nodes are copies connected in the same way.
+    Unlike copy.deepcopy this does not recurse along
+    paths of the graph, which exceeds the recursion
+    limit for networks with long paths."""
+    nodes = {node: copy.copy(node) for node in graph.nodes}
+    for node in nodes.values():
+        node.neighbours = [nodes[neighbour] for neighbour in node.neighbours]
+    return UndirectedGraph(list(nodes.values()), graph.name)
+
+
 def make_moralized_copy(gu, dag):
     """gu is an undirected graph being
     a copy of dag."""
-    gm = copy.deepcopy(gu)
+    gm = copy_undirected_graph(gu)
     gm_nodes = dict([(node.name, node) for node in gm.nodes])
     for node in dag.nodes:
         for parent_1, parent_2 in combinations(node.parents, 2):
@@ -902,7 +914,7 @@ def triangulate(gm, priority_func=priority_func):
     graph as well as the elimination ordering."""
 
     # First we will make a copy of gm...
-    gm_ = copy.deepcopy(gm)
+    gm_ = copy_undirected_graph(gm)
 
     # Now we will construct a priority q using
     # the standard library heapq module.
-- 
2.43.0


From 8995c24262a5cee33c5da02c76e53666f6581d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 03/31] fix: never draw samples of probability zero, nor run
 off the end of the density

---
 causalnex/ebaybbn/bbn.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 725efab..ef2860e 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -170,17 +170,20 @@ class BBN:
                 if key not in result_cache:
                     result_cache[key] = self.query(**sample)
                 result = result_cache[key]
+                # impossible values are never drawn, not even when
+                # the random number is exactly zero
                 var_density = [
                     r
                     for r in list(result.items())
-                    if r[0][0] == next_node.variable_name
+                    if r[0][0] == next_node.variable_name and r[1] > 0
                 ]
                 cumulative_density = var_density[:1]
                 for key, mass in var_density[1:]:
                     cumulative_density.append((key, cumulative_density[-1][1] + mass))
                 r = random()
                 i = 0
-                while r > cumulative_density[i][1]:
+                # the cumulative density may end slightly below one
+                while r > cumulative_density[i][1] and i < len(cumulative_density) - 1:
                     i += 1
                 sample[next_node.variable_name] = cumulative_density[i][0][1]
             samples.append(sample)
-- 
2.43.0


From f8054195be0fdd941a8f5535a563b0e17996e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 04/31] fix: end colour gradients exactly at the requested
 colour

---
 causalnex/plots/plots.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index 9cf72ca..66e759b 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -171,12 +171,13 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
         int(v, 16) if v else 0 for v in color_regex.match(to_color).groups()[1:]
     ]
 
-    delta_colors = [(t - f) / steps for f, t in zip(from_colors, to_colors)]
-
     gradient_colors = [
         "#"
         + "".join(
-            [format(int(f + d * i), "02x") for f, d in zip(from_colors, delta_colors)]
+            [
+                format(int(f + (t - f) * i / steps), "02x")
+                for f, t in zip(from_colors, to_colors)
+            ]
         )
         for i in range(steps + 1)
     ]
-- 
2.43.0


From b0a9b2a087f95b9c9f86328be1595b826737d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 05/31] fix: treat rgb colours without alpha as opaque in
 colour gradients

---
 causalnex/plots/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index 66e759b..c22466c 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -165,10 +165,10 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
     )
 
     from_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(from_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(from_color).groups()[1:]
     ]
     to_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(to_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(to_color).groups()[1:]
     ]
 
     gradient_colors = [
-- 
2.43.0


From cd9c21540db424504075f2fb1d09ee83576fcca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 06/31] fix: reject data types that merely contain a supported
 type

---
 .../structure/categorical_variable_mapper.py  | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/causalnex/structure/categorical_variable_mapper.py b/causalnex/structure/categorical_variable_mapper.py
index 62cfe74..c16a72d 100644
--- a/causalnex/structure/categorical_variable_mapper.py
+++ b/causalnex/structure/categorical_variable_mapper.py
@@ -252,6 +252,16 @@ class VariableFeatureMapper:
         return len(self.feature_list)
 
 
+def _is_permissible_type(data_type: str) -> bool:
+    """
+    Checks whether a data type is one of the permissible types. Only the
+    expandable type may be followed by a cardinality, separated by a colon.
+    """
+    if data_type.startswith("{}:".format(VariableFeatureMapper.EXPANDABLE_TYPE)):
+        return True
+    return data_type in VariableFeatureMapper.PERMISSIBLE_TYPES
+
+
 def validate_schema(
     nodes: Union[List[Hashable], Set[Hashable], NodeView],
     default_type: str = "continuous",
@@ -276,7 +286,7 @@ def validate_schema(
         ValueError: for unknown data type
         ValueError: for missing cardinality for categorical variables
     """
-    if not any(x in default_type for x in VariableFeatureMapper.PERMISSIBLE_TYPES):
+    if not _is_permissible_type(default_type):
         raise ValueError(
             "Unknown default data type. Supported data types are {}".format(
                 ", ".join(VariableFeatureMapper.PERMISSIBLE_TYPES)
@@ -288,17 +298,10 @@ def validate_schema(
     schema = {k: schema.get(k, default_type) for k in nodes}
 
     # verify if the data type is supported
-    if not all(
-        any(t in x for t in VariableFeatureMapper.PERMISSIBLE_TYPES)
-        for x in schema.values()
-    ):
+    if not all(_is_permissible_type(x) for x in schema.values()):
         raise ValueError(
             "Unknown data type for variable(s) {}, ".format(
-                [
-                    k
-                    for k, v in schema.items()
-                    if v not in VariableFeatureMapper.PERMISSIBLE_TYPES
-                ]
+                [k for k, v in schema.items() if not _is_permissible_type(v)]
             )
             + "Supported data types are {}".format(
                 ", ".join(VariableFeatureMapper.PERMISSIBLE_TYPES)
@@ -308,7 +311,7 @@ def validate_schema(
     missing_cardinality = {
         k
         for k, v in schema.items()
-        if "categorical" in v and re.match(r"^categorical:[1-9]+[0-9]*", v) is None
+        if "categorical" in v and re.match(r"^categorical:[1-9]+[0-9]*$", v) is None
     }
 
     if missing_cardinality:
-- 
2.43.0


From cfe3cbe9cc3f3169f18540b3dd0c628ae8de7b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 07/31] fix: learn structures from integer and boolean matrices
 without overflow

---
 causalnex/structure/notears.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causalnex/structure/notears.py b/causalnex/structure/notears.py
index 8a1ba4b..3d2f339 100644
--- a/causalnex/structure/notears.py
+++ b/causalnex/structure/notears.py
@@ -415,6 +415,9 @@ def _learn_structure(
         raise ValueError("Input data X is empty, cannot learn any structure")
     logging.info("Learning structure using 'NOTEARS' optimisation.")
 
+    # products of narrow integers overflow and products of booleans are not sums
+    X = X.astype(float, copy=False)
+
     # n examples, d properties
     n, d = X.shape
     # initialise matrix to zeros
@@ -529,6 +532,9 @@ def _learn_structure_lasso(
         "Learning structure using 'NOTEARS' optimisation with lasso regularisation."
     )
 
+    # products of narrow integers overflow and products of booleans are not sums
+    X = X.astype(float, copy=False)
+
     n, d = X.shape
     w_est, w_new = np.zeros(2 * d * d), np.zeros(2 * d * d)
     rho, alpha, h_val, h_new = 1.0, 0.0, np.inf, np.inf
-- 
2.43.0


From f8dcb56d0a251053ddcb9262af2317358678b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 08/31] fix: reject NaN and infinity in dynamic structure
 learning

---
 causalnex/structure/dynotears.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/dynotears.py b/causalnex/structure/dynotears.py
index 3e6d66b..21c176a 100644
--- a/causalnex/structure/dynotears.py
+++ b/causalnex/structure/dynotears.py
@@ -39,6 +39,7 @@ import scipy.linalg as slin
 import scipy.optimize as sopt
 
 from causalnex.structure import StructureModel
+from causalnex.structure.notears import _assert_all_finite
 from causalnex.structure.transformers import DynamicDataTransformer
 
 
@@ -209,7 +210,8 @@ def from_numpy_dynamic(  # pylint: disable=too-many-arguments
         A (np.ndarray): d x pd estimated weighted adjacency matrix of inter slices
 
     Raises:
-        ValueError: If X or Xlags does not contain data, or dimensions of X and Xlags do not conform
+        ValueError: If X or Xlags does not contain data, contains NaN or infinity,
+            or dimensions of X and Xlags do not conform
     """
     _, d_vars = X.shape
     p_orders = Xlags.shape[1] // d_vars
@@ -374,7 +376,8 @@ def _learn_dynamic_structure(
         A (np.ndarray): d x pd estimated weighted adjacency matrix of inter slices
 
     Raises:
-        ValueError: If X or Xlags does not contain data, or dimensions of X and Xlags do not conform
+        ValueError: If X or Xlags does not contain data, contains NaN or infinity,
+            or dimensions of X and Xlags do not conform
     """
     if X.size == 0:
         raise ValueError("Input data X is empty, cannot learn any structure")
@@ -386,6 +389,8 @@ def _learn_dynamic_structure(
         raise ValueError(
             "Number of columns of Xlags must be a multiple of number of columns of X"
         )
+    _assert_all_finite(X)
+    _assert_all_finite(Xlags)
 
     n, d_vars = X.shape
     p_orders = Xlags.shape[1] // d_vars
-- 
2.43.0


From c1701c0fe50babfda08c3a6d208224e1cef96561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 09/31] fix: do not treat rows with the same time index as
 successive events

---
 causalnex/structure/transformers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/structure/transformers.py b/causalnex/structure/transformers.py
index 09d5aa8..5784135 100644
--- a/causalnex/structure/transformers.py
+++ b/causalnex/structure/transformers.py
@@ -256,7 +256,7 @@ class DynamicDataTransformer(BaseEstimator, TransformerMixin):
         """
         time_series_realisations = []
         for t in time_series:
-            cutting_points = np.where(np.diff(t.index) > 1)[0]
+            cutting_points = np.where(np.diff(t.index) != 1)[0]
             cutting_points = [0] + list(cutting_points + 1) + [len(t)]
             for start, end in zip(cutting_points[:-1], cutting_points[1:]):
                 time_series_realisations.append(t.iloc[start:end, :].values)
-- 
2.43.0


From b0b4f3379fdb5fac610da45b597a19769c661b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 10/31] fix: keep lagged columns of generated time series in
 lag order

---
 causalnex/structure/data_generators/wrappers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 94ba092..2ad34d4 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -548,7 +548,11 @@ def generate_dataframe_dynamic(  # pylint: disable=R0914
             )
         )
     intra_nodes = sorted(el for el in g.nodes if "_lag0" in el)
-    inter_nodes = sorted(el for el in g.nodes if "_lag0" not in el)
+    # lag by lag, in the order of `intra_nodes`: this is the layout of `Xlags` below
+    inter_nodes = sorted(
+        (el for el in g.nodes if "_lag0" not in el),
+        key=lambda el: (int(el.rsplit("_lag", 1)[1]), el),
+    )
     w_mat = nx.to_numpy_array(g, nodelist=intra_nodes)
     a_mat = nx.to_numpy_array(g, nodelist=intra_nodes + inter_nodes)[
         len(intra_nodes) :, : len(intra_nodes)
-- 
2.43.0


From db47cdfc77327d4b657cd560a1d872bb438330ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:13 +0000
Subject: [PATCH 11/31] fix: predict probabilities when a parent is named like
 a result column

---
 causalnex/network/network.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 154e363..f839b92 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -532,9 +532,8 @@ class BayesianNetwork:
             return cpd.at[s, ""]
 
         for state in self.node_states[node]:
-            transformed_data[
-                "{n}_{s}".format(n=node, s=state)
-            ] = transformed_data.apply(
+            # look up in `data`: the new column may have the name of a parent
+            transformed_data["{n}_{s}".format(n=node, s=state)] = data.apply(
                 lambda row, st=state: lookup_probability(row, st), axis=1
             )
 
-- 
2.43.0


From 375061592143088f853428724d75bdb5c66db621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 12/31] fix: predict a node that is absent from incomplete data

---
 causalnex/network/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index f839b92..5a635c1 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -481,7 +481,7 @@ class BayesianNetwork:
         # transformed_data.is_copy()
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         predictions = self._model.predict(transformed_data)[[node]]
 
@@ -562,7 +562,7 @@ class BayesianNetwork:
         self._state_to_index(transformed_data)
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         probability = self._model.predict_probability(
             transformed_data
-- 
2.43.0


From f5d98113dbe7679ffd777647018d628545326e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:44 +0000
Subject: [PATCH 13/31] fix: name states by their labels when predicting from
 incomplete data

---
 causalnex/network/network.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 5a635c1..974305e 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -32,7 +32,6 @@ This module contains the implementation of ``BayesianNetwork``.
 describing causal relationships between variables and their distribution in a factorised way.
 """
 
-import re
 from copy import deepcopy
 from typing import Dict, Hashable, List, Set, Tuple
 
@@ -483,9 +482,11 @@ class BayesianNetwork:
         # pgmpy will predict all missing data, so drop column we want to predict
         transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
-        predictions = self._model.predict(transformed_data)[[node]]
+        predictions = self._model.predict(transformed_data)[node].map(
+            {index: state for state, index in self._node_states[node].items()}
+        )
 
-        return predictions.rename(columns={node: node + "_prediction"})
+        return predictions.to_frame(node + "_prediction")
 
     def predict_probability(self, data: pd.DataFrame, node: str) -> pd.DataFrame:
         """
@@ -568,14 +569,12 @@ class BayesianNetwork:
             transformed_data
         )  # type: pd.DataFrame
 
-        # keep only probabilities for the node we are interested in
-        cols = []
-        pattern = re.compile("^{node}_[0-9]+$".format(node=node))
-        # disabled open pylint issue (https://github.com/PyCQA/pylint/issues/2962)
-        for col in probability.columns:
-            if pattern.match(col):
-                cols.append(col)
-        probability = probability[cols]
-        probability.columns = cols
+        # keep only probabilities for the node we are interested in, named after its states
+        columns = {
+            "{n}_{i}".format(n=node, i=index): "{n}_{s}".format(n=node, s=state)
+            for state, index in self._node_states[node].items()
+        }
+        probability = probability[list(columns)]
+        probability.columns = list(columns.values())
 
         return probability
-- 
2.43.0


From 1ae63e02640604ba98527965ebe71e498a5c2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:44 +0000
Subject: [PATCH 14/31] fix: run inference on networks with variable names
 starting with a digit

---
 causalnex/inference/inference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index a1dd46e..37b4944 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -315,6 +315,8 @@ class InferenceEngine:
             code.co_cellvars,
         )
         template.__name__ = name
+        # names such as "10" are not identifiers, so the arguments cannot be found by `inspect.signature`
+        template.argspec = list(args)
 
         return template
 
-- 
2.43.0


From bc2465cb6e2f8a2a8dd1d01aa095d173a7d186d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:44 +0000
Subject: [PATCH 15/31] fix: reject variable names ending in a newline

---
 causalnex/inference/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index 37b4944..54ad30f 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -104,7 +104,7 @@ class InferenceEngine:
                         or if the CPDs have not been learned yet.
         """
 
-        bad_nodes = [node for node in bn.nodes if not re.match("^[0-9a-zA-Z_]+$", node)]
+        bad_nodes = [node for node in bn.nodes if not re.fullmatch("[0-9a-zA-Z_]+", node)]
         if bad_nodes:
             raise ValueError(
                 "Variable names must match ^[0-9a-zA-Z_]+$ - please fix the "
-- 
2.43.0


From 0b8a0d3fbe6410a44d4a59ea4a717fed8bf14d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:44 +0000
Subject: [PATCH 16/31] fix: accept interventions on states that are not
 integers

---
 causalnex/inference/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index 54ad30f..e17e002 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -207,7 +207,7 @@ class InferenceEngine:
                 "Do calculus cannot be applied because it would result in an isolate"
             )
 
-        if isinstance(state, int):
+        if not isinstance(state, dict):
             state = {s: float(s == state) for s in self._cpds[node]}
 
         self._do(node, state)
-- 
2.43.0


From a41675f27a5f8392d433cf9add48259f620320c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:44 +0000
Subject: [PATCH 17/31] fix: accept interventions whose probabilities sum to
 one up to rounding

---
 causalnex/inference/inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index e17e002..90fa930 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -33,6 +33,7 @@ This module contains the implementation of ``InferenceEngine``.
 
 import copy
 import inspect
+import math
 import re
 import types
 from typing import Callable, Dict, Hashable, Tuple, Union
@@ -160,7 +161,7 @@ class InferenceEngine:
             ValueError: if states do not match original states of the node, or probabilities do not sum to 1.
         """
 
-        if sum(state.values()) != 1.0:
+        if not math.isclose(sum(state.values()), 1.0):
             raise ValueError("The cpd for the provided observation must sum to 1")
 
         if max(state.values()) > 1.0 or min(state.values()) < 0:
-- 
2.43.0


From d6969f58dcb0764573913e1706331bd29392d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 18/31] fix: pair predicted probabilities with the states they
 belong to in roc_auc

---
 causalnex/evaluation/evaluation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index 172a7ad..639397c 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -99,9 +99,10 @@ def roc_auc(
     ground_truth = _build_ground_truth(bn, data, node)
     predictions = bn.predict_probability(data, node)
 
-    # update column names to match those of ground_truth
-    predictions.rename(columns=lambda x: x.lstrip(node + "_"), inplace=True)
-    predictions = predictions[sorted(predictions.columns)]
+    # put the columns in the order of the states in ground_truth
+    predictions = predictions[
+        ["{0}_{1}".format(node, state) for state in ground_truth.columns]
+    ]
 
     fpr, tpr, _ = metrics.roc_curve(
         ground_truth.values.ravel(), predictions.values.ravel()
-- 
2.43.0


From b67c083b3428c0edbbdcdebf179f81a30d2de71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:21 +0000
Subject: [PATCH 19/31] fix: compute roc_auc for nodes with boolean states

---
 causalnex/evaluation/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index 639397c..6ef07a0 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -47,7 +47,8 @@ def _build_ground_truth(
             ground_truth[dummy] = [0 for _ in range(len(ground_truth))]
 
     # update ground truth column names to be correct, since we may have added missing columns
-    return ground_truth[sorted(ground_truth.columns)]
+    # (not by a list of columns, which would be taken for a row mask if the states are booleans)
+    return ground_truth.sort_index(axis=1)
 
 
 def roc_auc(
-- 
2.43.0


From 861769ac1d9f8684921d272deb2cba781fac556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:32 +0000
Subject: [PATCH 20/31] fix: infer in networks with a variable named like a
 local of the node function

A variable named 'self' made every query raise KeyError, because the
arguments were looked up by name in the frame of the node function.
---
 causalnex/inference/inference.py | 53 +++++---------------------------
 1 file changed, 8 insertions(+), 45 deletions(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index 90fa930..521dbfc 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -32,10 +32,8 @@ This module contains the implementation of ``InferenceEngine``.
 """
 
 import copy
-import inspect
 import math
 import re
-import types
 from typing import Callable, Dict, Hashable, Tuple, Union
 
 import pandas as pd
@@ -198,12 +196,7 @@ class InferenceEngine:
         Raises:
             ValueError: if performing intervention would create an isolated node.
         """
-        if not any(
-            [
-                node in inspect.getargs(f.__code__)[0][1:]
-                for _, f in self._node_functions.items()
-            ]
-        ):
+        if not any([node in f.argspec[1:] for _, f in self._node_functions.items()]):
             raise ValueError(
                 "Do calculus cannot be applied because it would result in an isolate"
             )
@@ -279,44 +272,14 @@ class InferenceEngine:
     def _create_node_function(self, name: str, args: Tuple[str]):
         """Creates a new function that describes a node in the ``BayesianNetwork``."""
 
-        def template() -> float:
-            """Template node function."""
-            # use inspection to determine arguments to the function
-            # initially there are none present, but caller will add appropriate arguments to the function
-            # getargvalues was "inadvertently marked as deprecated in Python 3.5"
-            # https://docs.python.org/3/library/inspect.html#inspect.getfullargspec
-            arg_spec = inspect.getargvalues(inspect.currentframe())
-
-            return self._cpds[arg_spec.args[0]][  # target name
-                arg_spec.locals[arg_spec.args[0]]
-            ][  # target state
-                tuple([(arg, arg_spec.locals[arg]) for arg in arg_spec.args[1:]])
-            ]  # conditions
-
-        code = template.__code__
-        pos_count = (
-            [code.co_posonlyargcount] if hasattr(code, "co_posonlyargcount") else []
-        )
-        template.__code__ = types.CodeType(
-            len(args),
-            *pos_count,
-            code.co_kwonlyargcount,
-            len(args),
-            code.co_stacksize,
-            code.co_flags,
-            code.co_code,
-            code.co_consts,
-            code.co_names,
-            args,
-            code.co_filename,
-            name,
-            code.co_firstlineno,
-            code.co_lnotab,
-            code.co_freevars,
-            code.co_cellvars,
-        )
+        def template(*values: Hashable) -> float:
+            """Template node function, taking the states of the node and of its parents."""
+            return self._cpds[args[0]][values[0]][  # target name, target state
+                tuple(zip(args[1:], values[1:]))  # conditions
+            ]
+
         template.__name__ = name
-        # names such as "10" are not identifiers, so the arguments cannot be found by `inspect.signature`
+        # names such as "10" or "self" cannot be the arguments of a function
         template.argspec = list(args)
 
         return template
-- 
2.43.0


From 1aa2702bea7a1a508e801da4a389e5275b58756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 21/31] fix: predict the target when there are ordinal features

---
 causalnex/structure/pytorch/core.py          | 11 +++++++++--
 causalnex/structure/pytorch/sklearn/_base.py |  8 +++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/causalnex/structure/pytorch/core.py b/causalnex/structure/pytorch/core.py
index ec616d7..bae0d69 100644
--- a/causalnex/structure/pytorch/core.py
+++ b/causalnex/structure/pytorch/core.py
@@ -184,18 +184,25 @@ class NotearsMLP(nn.Module, BaseEstimator):
         x = x.squeeze(dim=2)  # [n, d]
         return x
 
-    def reconstruct_data(self, X: np.ndarray) -> np.ndarray:
+    def reconstruct_data(
+        self, X: np.ndarray, dist_types: List[DistTypeBase] = None
+    ) -> np.ndarray:
         """
         Performs X_hat reconstruction,
         then converts latent space to original data space via link function.
 
         Args:
             X: input data used to reconstruct
+            dist_types: the dist types whose columns are converted from the latent space.
+            If None, converts the columns of all dist types.
 
         Returns:
             reconstructed data
         """
 
+        if dist_types is None:
+            dist_types = self.dist_types
+
         # perform preprocessing and column expansions, do NOT refit
         for dist_type in self.dist_types:
             X = dist_type.preprocess_X(X, fit_transform=False)
@@ -208,7 +215,7 @@ class NotearsMLP(nn.Module, BaseEstimator):
             X_hat = self(X)
 
             # recover each one of the latent space projections
-            for dist_type in self.dist_types:
+            for dist_type in dist_types:
                 X_hat = dist_type.inverse_link_function(X_hat)
 
             return np.asarray(X_hat.cpu().detach().numpy().astype(np.float64))
diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 3c86528..38a84c5 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -275,11 +275,13 @@ class DAGBase(
 
         # extract the base solver
         structure_learner = self.graph_.graph["structure_learner"]
-        # use base solver to reconstruct data
-        X_hat = structure_learner.reconstruct_data(X)
-
         # get the target dist_type
         target_dist_type = self.graph_.nodes(data=True)[self._target]["dist_type"]
+        # use base solver to reconstruct data
+        # NOTE: only the target is converted from the latent space, as the link
+        # function of an ordinal feature does not return the remaining columns
+        X_hat = structure_learner.reconstruct_data(X, dist_types=[target_dist_type])
+
         # pull off reconstructed y columns
         y_pred = target_dist_type.get_columns(X_hat)
 
-- 
2.43.0


From 1953e15b9e68a36ea45f088195f0808d4fe50ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 22/31] fix: do not truncate standardized integer features in
 predict

---
 causalnex/structure/pytorch/sklearn/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 38a84c5..c177623 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -261,7 +261,8 @@ class DAGBase(
         # force convert to ndarray
         X = np.asarray(X)
         if self.standardize:
-            X = X.copy()
+            # copy as float, since integer data cannot hold the standardized values
+            X = X.astype(np.float64)
             X[:, self.continuous_col_idxs] = self._ss_X.transform(
                 X[:, self.continuous_col_idxs]
             )
-- 
2.43.0


From 7505b0e3ecf62d68fe2e0d0c89f9ff689a3f49a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 23/31] fix: standardize when no feature is continuous

---
 causalnex/structure/pytorch/sklearn/_base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index c177623..921b09c 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -201,9 +201,10 @@ class DAGBase(
             # copy X to prevet changes to underlying array data
             X = X.copy()
             self._ss_X = StandardScaler()
-            X.iloc[:, self.continuous_col_idxs] = self._ss_X.fit_transform(
-                X.iloc[:, self.continuous_col_idxs]
-            )
+            if self.continuous_col_idxs:
+                X.iloc[:, self.continuous_col_idxs] = self._ss_X.fit_transform(
+                    X.iloc[:, self.continuous_col_idxs]
+                )
 
             # if its a continuous target also standardize
             if self._target_dist_type == "cont":
@@ -260,7 +261,7 @@ class DAGBase(
         """
         # force convert to ndarray
         X = np.asarray(X)
-        if self.standardize:
+        if self.standardize and self.continuous_col_idxs:
             # copy as float, since integer data cannot hold the standardized values
             X = X.astype(np.float64)
             X[:, self.continuous_col_idxs] = self._ss_X.transform(
-- 
2.43.0


From 2b41bb3a7ff9595356113533a2459bd5547b6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 24/31] fix: keep target_dist_type in clones and choose it anew
 in every fit

---
 causalnex/structure/pytorch/sklearn/_base.py | 1 +
 causalnex/structure/pytorch/sklearn/clf.py   | 1 +
 causalnex/structure/pytorch/sklearn/reg.py   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 921b09c..bec7862 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -162,6 +162,7 @@ class DAGBase(
         self.tabu_edges = tabu_edges
         self.tabu_parent_nodes = tabu_parent_nodes
         self.tabu_child_nodes = tabu_child_nodes
+        self.target_dist_type = target_dist_type
         self._target_dist_type = target_dist_type
         self.kwargs = kwargs
 
diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index a1a07a5..788e899 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -109,6 +109,7 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             )
 
         # store the protected attr _target_dist_type
+        self._target_dist_type = self.target_dist_type
         if self._target_dist_type is None:
             self._target_dist_type = "cat" if n_classes > 2 else "bin"
 
diff --git a/causalnex/structure/pytorch/sklearn/reg.py b/causalnex/structure/pytorch/sklearn/reg.py
index e4a8227..5a799ee 100644
--- a/causalnex/structure/pytorch/sklearn/reg.py
+++ b/causalnex/structure/pytorch/sklearn/reg.py
@@ -86,6 +86,7 @@ class DAGRegressor(RegressorMixin, DAGBase):
         """
 
         # store the protected attr _target_dist_type
+        self._target_dist_type = self.target_dist_type
         if self._target_dist_type is None:
             self._target_dist_type = "cont"
 
-- 
2.43.0


From 9c30261e4eec9a70e4f47fcd44d1757ad9e9690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 25/31] fix: classify string and boolean labels given as an
 array

---
 causalnex/structure/pytorch/sklearn/clf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index 788e899..cb68a24 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -94,8 +94,13 @@ class DAGClassifier(ClassifierMixin, DAGBase):
 
         # encode the categories to be numeric
         enc = LabelEncoder()
-        y = y.copy()
-        y[:] = enc.fit_transform(y)
+        y_encoded = enc.fit_transform(y)
+        # NOTE: the codes are not written into y, whose dtype might not be numeric
+        y = (
+            pd.Series(y_encoded, index=y.index, name=y.name)
+            if isinstance(y, pd.Series)
+            else y_encoded
+        )
         # store the classes from the LabelEncoder
         self.classes_ = enc.classes_
 
-- 
2.43.0


From 4f8a6db78a9ac6094b667a4b722a1c3197ce018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 26/31] fix: pair an indexed X with an array y by position

---
 causalnex/structure/pytorch/sklearn/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index bec7862..84ad4d2 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -180,8 +180,10 @@ class DAGBase(
         check_X_y(X, y, y_numeric=True)
 
         # force X, y to DataFrame, Series for later calculations
-        X = pd.DataFrame(X)
-        y = pd.Series(y)
+        # NOTE: data without an index is paired by position with data that has one
+        y_index = y.index if isinstance(y, pd.Series) else None
+        X = pd.DataFrame(X, index=None if isinstance(X, pd.DataFrame) else y_index)
+        y = pd.Series(y, index=X.index if y_index is None else y_index)
         # force name so that name != None (causes errors in notears)
         y.name = y.name or "__target"
 
-- 
2.43.0


From 6a9b7c181aa67312723c4df769cab63b180fbc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 27/31] fix: coefficients and intercepts of ordinal and
 two-class categorical targets

---
 causalnex/structure/pytorch/sklearn/clf.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index cb68a24..5193a9c 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -176,9 +176,8 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             the L2 relationship between nodes.
             shape: (1, n_features) or (n_classes, n_features).
         """
-        n_classes = len(self.classes_)
-        # handle binary
-        if n_classes == 2:
+        # handle targets with a single node (binary and ordinal)
+        if self._target_dist_type != "cat":
             return np.asarray(self.get_edges_to_node(self._target).values).reshape(
                 1, -1
             )
@@ -199,9 +198,8 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             the mean effect relationship between nodes.
             shape: (1, n_features) or (n_classes, n_features).
         """
-        n_classes = len(self.classes_)
-        # handle binary
-        if n_classes == 2:
+        # handle targets with a single node (binary and ordinal)
+        if self._target_dist_type != "cat":
             return np.asarray(
                 self.get_edges_to_node(self._target, data="mean_effect")
             ).reshape(1, -1)
@@ -224,9 +222,8 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             The bias term from the target node.
             shape: (1,) or (n_classes,).
         """
-        n_classes = len(self.classes_)
-        # handle binary
-        if n_classes == 2:
+        # handle targets with a single node (binary and ordinal)
+        if self._target_dist_type != "cat":
             bias = self.graph_.nodes[self._target]["bias"]
             bias = 0.0 if bias is None else float(bias)
             return np.array([bias])
-- 
2.43.0


From 04cb302fac9c35f05c590cff40e5c25de81b5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 28/31] fix: reject expanded column names that coincide with
 other columns

---
 causalnex/structure/pytorch/notears.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/causalnex/structure/pytorch/notears.py b/causalnex/structure/pytorch/notears.py
index 1cd5557..d9956b3 100644
--- a/causalnex/structure/pytorch/notears.py
+++ b/causalnex/structure/pytorch/notears.py
@@ -297,6 +297,7 @@ def from_pandas(
 
     Raises:
         ValueError: If X does not contain data.
+        ValueError: If the name of an expanded column is also the name of another column.
     """
 
     data = deepcopy(X)
@@ -351,6 +352,15 @@ def from_pandas(
     for dist_type in unique_dist_types:
         idx_col_expanded = dist_type.update_idx_col(idx_col_expanded)
 
+    # nodes with the same name would be merged silently
+    if len(set(idx_col_expanded.values())) < len(idx_col_expanded):
+        raise ValueError(
+            "The names of expanded columns coincide with other column names. "
+            "Consider renaming the columns. Got expanded columns {}".format(
+                list(idx_col_expanded.values())
+            )
+        )
+
     sm = StructureModel()
     # add expanded set of nodes
     sm.add_nodes_from(list(idx_col_expanded.values()))
-- 
2.43.0


From 6d0fd6be0ae2b1a7f3e76f66b56e8cbb946f5dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 29/31] fix: coefficients of categorical targets with
 categorical features

---
 causalnex/structure/pytorch/sklearn/_base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 84ad4d2..dfe9c66 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -312,7 +312,15 @@ class DAGBase(
         check_is_fitted(self)
 
         # build base data series
-        edges = pd.Series(index=self._features)
+        # NOTE: the additional nodes of expanded features follow the features, whether
+        # or not they have edges, so that the series of different nodes match
+        target_dist_type = self.graph_.nodes[self._target]["dist_type"]
+        expanded = [
+            node
+            for node, dist_type in self.graph_.nodes(data="dist_type")
+            if node not in self._features and dist_type is not target_dist_type
+        ]
+        edges = pd.Series(index=list(self._features) + expanded)
 
         # iterate over all edges
         for (i, j, w) in self.graph_.edges(data=data):
-- 
2.43.0


From 176dde15d4f0ab863af378fe4aba587d63f5cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:06 +0000
Subject: [PATCH 30/31] fix: reject a dynamic data matrix without columns as
 empty

---
 causalnex/structure/dynotears.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/structure/dynotears.py b/causalnex/structure/dynotears.py
index 21c176a..fcc0393 100644
--- a/causalnex/structure/dynotears.py
+++ b/causalnex/structure/dynotears.py
@@ -214,7 +214,7 @@ def from_numpy_dynamic(  # pylint: disable=too-many-arguments
             or dimensions of X and Xlags do not conform
     """
     _, d_vars = X.shape
-    p_orders = Xlags.shape[1] // d_vars
+    p_orders = Xlags.shape[1] // d_vars if d_vars else 0
 
     bnds_w = 2 * [
         (0, 0)
-- 
2.43.0


From 9285547c91a3d9c7c2bd55ea61b6b7c1f5ae708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 31/31] fix: forget the columns of an earlier fit when a lag
 transformer is fitted again

---
 causalnex/structure/transformers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causalnex/structure/transformers.py b/causalnex/structure/transformers.py
index 5784135..58c589e 100644
--- a/causalnex/structure/transformers.py
+++ b/causalnex/structure/transformers.py
@@ -87,6 +87,8 @@ class DynamicDataTransformer(BaseEstimator, TransformerMixin):
 
         """
         time_series = time_series if isinstance(time_series, list) else [time_series]
+        # forget the columns of an earlier fit, which these time series need not have
+        self.columns = None
         self._check_input_from_pandas(time_series)
         self.columns = list(time_series[0].columns)
         self.return_df = return_df
-- 
2.43.0

