From e645362e2a13b8de6e25b5284ac4857cbe42005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 01/42] fix: query no longer deletes disconnected nodes from
 the queried model

---
 pycid/core/causal_bayesian_network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index fc623b5..7395847 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -165,9 +165,11 @@ class CausalBayesianNetwork(BayesianNetwork):
             *[nx.node_connected_component(undirected, var) for var in query]
         )
         context = {k: v for k, v in context.items() if k in connected_nodes}
-        for node in list(cbn.nodes):
-            if node not in connected_nodes:
-                cbn.remove_node(node)
+        disconnected_nodes = [node for node in cbn.nodes if node not in connected_nodes]
+        if disconnected_nodes and cbn is self:
+            cbn = self.copy()  # don't remove nodes from the user's model
+        for node in disconnected_nodes:
+            cbn.remove_node(node)
         if not nx.is_connected(cbn.to_undirected()):
             raise ValueError(f"query {query} contains nodes in disconnected components")
 
-- 
2.43.0


From 20d25744c9b20d4a2c55c66c9db2d3aae24a08a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 02/42] fix: MACIDBase no longer shares its role lists with the
 caller or other models

---
 pycid/core/macid_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 94c97b1..5a1bf57 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -86,8 +86,9 @@ class MACIDBase(CausalBayesianNetwork):
         """
         super().__init__(edges=edges, **kwargs)
 
-        self.agent_decisions = dict(agent_decisions) if agent_decisions else {}
-        self.agent_utilities = dict(agent_utilities) if agent_utilities else {}
+        # copy the lists, so that they are not shared with the caller or with other models
+        self.agent_decisions = {agent: list(nodes) for agent, nodes in (agent_decisions or {}).items()}
+        self.agent_utilities = {agent: list(nodes) for agent, nodes in (agent_utilities or {}).items()}
 
         self.decision_agent = {node: agent for agent, nodes in self.agent_decisions.items() for node in nodes}
         self.utility_agent = {node: agent for agent, nodes in self.agent_utilities.items() for node in nodes}
-- 
2.43.0


From ae8a676c2a1392ec9cb50921251d9212b461a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 03/42] fix: handle agents that have decisions but no
 utilities, or utilities but no decisions

---
 pycid/core/macid_base.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 5a1bf57..b4bd05e 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -89,6 +89,9 @@ class MACIDBase(CausalBayesianNetwork):
         # copy the lists, so that they are not shared with the caller or with other models
         self.agent_decisions = {agent: list(nodes) for agent, nodes in (agent_decisions or {}).items()}
         self.agent_utilities = {agent: list(nodes) for agent, nodes in (agent_utilities or {}).items()}
+        # every agent has an entry in both dictionaries, also if it has no decisions or no utilities
+        for agent in [*self.agent_decisions, *self.agent_utilities]:
+            self._add_agent(agent)
 
         self.decision_agent = {node: agent for agent, nodes in self.agent_decisions.items() for node in nodes}
         self.utility_agent = {node: agent for agent, nodes in self.agent_utilities.items() for node in nodes}
@@ -108,24 +111,24 @@ class MACIDBase(CausalBayesianNetwork):
         """The set of all agents"""
         return self.agent_utilities.keys()
 
+    def _add_agent(self, agent: AgentLabel) -> None:
+        self.agent_decisions.setdefault(agent, [])
+        self.agent_utilities.setdefault(agent, [])
+
     def make_decision(self, node: str, agent: AgentLabel = 0) -> None:
         """ "Turn a chance or utility node into a decision node.
         - agent specifies which agent the decision node should belong to in a MACID.
         """
         self.make_chance(node)
-        if agent not in self.agent_decisions:
-            self.agent_decisions[agent] = [node]
-        else:
-            self.agent_decisions[agent].append(node)
+        self._add_agent(agent)
+        self.agent_decisions[agent].append(node)
         self.decision_agent[node] = agent
 
     def make_utility(self, node: str, agent: AgentLabel = 0) -> None:
         """ "Turn a chance or utility node into a decision node."""
         self.make_chance(node)
-        if agent not in self.agent_utilities:
-            self.agent_utilities[agent] = [node]
-        else:
-            self.agent_utilities[agent].append(node)
+        self._add_agent(agent)
+        self.agent_utilities[agent].append(node)
         self.utility_agent[node] = agent
 
     def make_chance(self, node: str) -> None:
-- 
2.43.0


From 794347785d800e364bfaf6b62c99a9724e0653a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 04/42] fix: MechanismGraph detects when a mechanism name
 clashes with an existing node

---
 pycid/core/macid_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index b4bd05e..4f8951c 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -476,8 +476,8 @@ class MechanismGraph(MACIDBase):
         )
 
         for node in cid.nodes:
-            if node[:-3] == "mec":
-                raise ValueError("can't create a mechanism graph when node {node} already ends with mec")
+            if node + "mec" in cid.nodes:
+                raise ValueError(f"can't create a mechanism graph when both {node} and {node}mec are nodes")
             self.add_node(node + "mec")
             self.add_edge(node + "mec", node)
         # TODO: adapt the parameterization from cid as well
-- 
2.43.0


From a59d5d56b7af7a598b8c328a9503316fbe90cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 05/42] fix: MACIDBase.query accepts a context on nodes with a
 plain TabularCPD

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 4f8951c..b1de261 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -162,7 +162,7 @@ class MACIDBase(CausalBayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
         for variable, outcome in context.items():
-            if outcome not in self.get_cpds(variable).domain:
+            if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
 
         intervention = intervention or {}
-- 
2.43.0


From fe6505f2c7ab845a8f82eeeea93e36ed1de3ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 06/42] fix: active_trail_nodes and is_dconnected work without
 an observed set on MACIDBase

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index b1de261..09d4219 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -423,7 +423,7 @@ class MACIDBase(CausalBayesianNetwork):
     def active_trail_nodes(
         self, variables: Union[str, List[str], Tuple[str, ...]], observed: Optional[Iterable[str]] = None, **kwargs: Any
     ) -> Dict[str, Set[str]]:
-        return super().active_trail_nodes(variables, list(observed), **kwargs)  # type: ignore
+        return super().active_trail_nodes(variables, list(observed or []), **kwargs)  # type: ignore
 
     def copy_without_cpds(self) -> MACIDBase:
         """copy the MACIDBase object without its CPDs"""
-- 
2.43.0


From 36f2ab64ca81588cfc925bbe8325650abf4c5141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 07/42] fix: the expected value of no variables is empty, so
 agents without utilities have expected utility 0

---
 pycid/core/causal_bayesian_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 7395847..5cacf0e 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -213,6 +213,9 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
+        variables = list(variables)
+        if not variables:
+            return []
         factor = self.query(variables, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
-- 
2.43.0


From 8027e206bcde97d34f8eb796aa276ae266e68924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 08/42] fix: impute_optimal_decision handles decision contexts
 with probability zero

---
 pycid/core/macid_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 09d4219..1cdc323 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -398,7 +398,10 @@ class MACIDBase(CausalBayesianNetwork):
             eu = {}
             for d in domain:
                 parent_values[decision] = d
-                eu[d] = sum(copy.expected_value(descendant_utility_nodes, parent_values))
+                try:
+                    eu[d] = sum(copy.expected_value(descendant_utility_nodes, parent_values))
+                except RuntimeError:  # this decision context has probability zero, so any outcome is optimal
+                    return d
             return max(eu, key=eu.get)  # type: ignore
 
         self.add_cpds(StochasticFunctionCPD(decision, opt_policy, self, domain=domain, label="opt"))
-- 
2.43.0


From 240526bc995dd1857ebe49232a01d0cdbfe78b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 09/42] fix: quantitative_voc no longer modifies the analysed
 CID

---
 pycid/analyze/value_of_control.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index 1658630..8ee9ba5 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -61,6 +61,7 @@ def quantitative_voc(cid: CID, node: str) -> float:
         raise KeyError(f"{node} is not present in the cid")
 
     # optimal policy in the original CID.
+    cid = cid.copy()  # don't modify the user's model
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
     cid.make_decision(node)
-- 
2.43.0


From 67ed22e0cab8a90a8d8f8f397c559f6c7dfc791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 10/42] fix: RandomCPD accepts 0 as a seed

---
 pycid/random/random_cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index c270836..359ec7f 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -39,7 +39,7 @@ class RandomCPD:
 
         seed: Set the random seed
         """
-        self.seed = seed or np.random.randint(0, 10000)
+        self.seed = seed if seed is not None else np.random.randint(0, 10000)
         self.smoothness = smoothness
         self.domain = domain or [0, 1]
 
-- 
2.43.0


From 8f68935751e72dad60d1cd652d13c92f5862dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 11/42] fix: random_dag respects max_in_degree when adding
 edges

---
 pycid/random/random_dag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycid/random/random_dag.py b/pycid/random/random_dag.py
index 9f41596..93b8829 100644
--- a/pycid/random/random_dag.py
+++ b/pycid/random/random_dag.py
@@ -45,7 +45,9 @@ def random_dag(number_of_nodes: int = 5, edge_density: float = 0.4, max_in_degre
 
     # Then add edges until desired density is reached
     maximum_number_of_edges = number_of_nodes * (number_of_nodes - 1) / 2
-    while dag.number_of_edges() < int(edge_density * maximum_number_of_edges):
-        add_random_edge(dag, node_names)
+    edges_within_in_degree = sum(min(i, max_in_degree) for i in range(number_of_nodes))
+    desired_number_of_edges = min(int(edge_density * maximum_number_of_edges), edges_within_in_degree)
+    while dag.number_of_edges() < desired_number_of_edges:
+        add_random_edge(dag, node_names, max_in_degree)
 
     return dag
-- 
2.43.0


From 67ec5b67b6d7e4c1c091660892d420a3131ae5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 12/42] fix: random (MA)CIDs have sufficient recall whenever it
 is requested

---
 pycid/random/random_macidbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/random/random_macidbase.py b/pycid/random/random_macidbase.py
index 113b29e..b229d97 100644
--- a/pycid/random/random_macidbase.py
+++ b/pycid/random/random_macidbase.py
@@ -95,6 +95,9 @@ def random_macidbase(
 
             if sufficient_recall:
                 _add_sufficient_recalls(mb)
+                if not mb.sufficient_recall():
+                    # the edges added for one decision opened a path for another one: resample a new random DAG
+                    continue
                 if not _check_max_in_degree(mb, max_in_degree):
                     # adding edges for sufficient recall requirement violates max_in_degree: resample a new random DAG
                     continue
-- 
2.43.0


From ad0f9b406f14461502c6c2a3d0a82ee927e25b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:26 +0000
Subject: [PATCH 13/42] fix: intervene keeps the order of the intervened
 variable's domain

---
 pycid/core/causal_bayesian_network.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 5cacf0e..164c6e9 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -192,9 +192,15 @@ class CausalBayesianNetwork(BayesianNetwork):
             del self.model[variable]
             for p in self.get_parents(variable):  # remove ingoing edges
                 self.remove_edge(p, variable)
-            new_dist = {outcome: 0 for outcome in self.model.domain[variable]}
+            domain = self.model.domain[variable]
+            new_dist = {outcome: 0 for outcome in domain}
             new_dist[intervention[variable]] = 1
-            self.model[variable] = new_dist
+            if list(new_dist) == sorted(new_dist) or len(new_dist) > len(domain):
+                self.model[variable] = new_dist
+            else:  # a dictionary would sort the domain, and thereby permute the tables of the children
+                self.model[variable] = TabularCPD(
+                    variable, len(domain), [[prob] for prob in new_dist.values()], state_names={variable: list(domain)}
+                )
 
     def expected_value(
         self,
-- 
2.43.0


From f7541c389441c485039c95adf925251b30f2791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:26 +0000
Subject: [PATCH 14/42] fix: decisions at forks do not make a path ineffective,
 as documented

---
 pycid/analyze/reasoning_patterns.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index d28cdfe..a8ad13a 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -34,8 +34,11 @@ def _effective_undir_path_exists(mb: MACIDBase, start: str, finish: str, effecti
 
 
 def _path_is_effective(mb: MACIDBase, path: List[str], effective_set: Set[str]) -> bool:
-    """Check whether a path is effective."""
-    dec_nodes_in_path = set(mb.decisions).intersection(set(path[1:]))  # exclude first node of the path
+    """Check whether a path is effective: all decision nodes in it are effective,
+    except possibly the initial node, and except fork nodes."""
+    dec_nodes_in_path = [
+        node for i, node in enumerate(path) if i > 0 and node in mb.decisions and get_motif(mb, path, i) != "fork"
+    ]
     # all([]) evaluates to true => this covers case where path has no decision nodes
     return all(dec_node in effective_set for dec_node in dec_nodes_in_path)
 
-- 
2.43.0


From 235e021d39cc64e88a562aed4fde69e169124f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 15/42] fix: signaling considers every effective backdoor path,
 not just the first one found

---
 pycid/analyze/reasoning_patterns.py | 35 +++++++++++------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index a8ad13a..a2a5c93 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, List, Optional, Set, Union
+from typing import Any, Dict, Iterator, List, Optional, Set, Union
 
 import networkx as nx
 
@@ -55,19 +55,15 @@ def _directed_effective_path_not_through_set_y(
     )
 
 
-def _effective_backdoor_path_not_blocked_by_set_w(
+def _effective_backdoor_paths_not_blocked_by_set_w(
     mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
-) -> Optional[List[str]]:
-    """
-    Returns the effective backdoor path not blocked if we condition on nodes in set w.
-    If no such path exists, this returns None.
-    """
+) -> Iterator[List[str]]:
+    """Iterate over the effective backdoor paths not blocked if we condition on nodes in set w."""
     for path in find_all_undir_paths(mb, start, finish):
         is_backdoor_path = path[1] in mb.get_parents(path[0])
         not_blocked_by_w = is_active_path(mb, path, w)
         if is_backdoor_path and not_blocked_by_w and _path_is_effective(mb, path, effective_set):
-            return path
-    return None
+            yield path
 
 
 def _effective_undir_path_not_blocked_by_set_w(
@@ -170,21 +166,16 @@ def signaling(macid: MACID, decision: str, effective_set: Set[str]) -> bool:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
 
-                path = _effective_backdoor_path_not_blocked_by_set_w(macid, decision, u_b, effective_set, cond_nodes)
-                if not path:
-                    continue
-
-                if _get_key_node(macid, path):
+                for path in _effective_backdoor_paths_not_blocked_by_set_w(
+                    macid, decision, u_b, effective_set, cond_nodes
+                ):
                     key_node = _get_key_node(macid, path)
-                else:
-                    return False
-
-                key_node_descendants = set(nx.descendants(macid, key_node))
-                cond_nodes2 = {decision}
-                cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
+                    key_node_descendants = set(nx.descendants(macid, key_node))
+                    cond_nodes2 = {decision}
+                    cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
 
-                if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
-                    return True
+                    if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
+                        return True
     else:
         return False
 
-- 
2.43.0


From a937d66c5621c2b5145c3d9e2e14705315efef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 16/42] fix: revealing_or_denying requires the frontdoor path
 to be effective, as documented

---
 pycid/analyze/reasoning_patterns.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index a2a5c93..a12149b 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -7,7 +7,7 @@ from pycid.core.get_paths import (
     find_all_dir_paths,
     find_all_undir_paths,
     get_motif,
-    is_active_indirect_frontdoor_trail,
+    get_motifs,
     is_active_path,
 )
 from pycid.core.macid import MACID
@@ -66,6 +66,19 @@ def _effective_backdoor_paths_not_blocked_by_set_w(
             yield path
 
 
+def _effective_indirect_frontdoor_path_not_blocked_by_set_w(
+    mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
+) -> bool:
+    """Check whether an effective indirect frontdoor path exists that is not blocked if we condition on w."""
+    return any(
+        path[0] in mb.get_parents(path[1])
+        and is_active_path(mb, path, w)
+        and "collider" in get_motifs(mb, path)
+        and _path_is_effective(mb, path, effective_set)
+        for path in find_all_undir_paths(mb, start, finish)
+    )
+
+
 def _effective_undir_path_not_blocked_by_set_w(
     mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
 ) -> Union[List[str], None]:
@@ -213,7 +226,9 @@ def revealing_or_denying(macid: MACID, decision: str, effective_set: Set[str]) -
             for u_b in agent_b_utils:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
-                if is_active_indirect_frontdoor_trail(macid, decision, u_b, cond_nodes):
+                if _effective_indirect_frontdoor_path_not_blocked_by_set_w(
+                    macid, decision, u_b, effective_set, cond_nodes
+                ):
                     return True
     else:
         return False
-- 
2.43.0


From cca59f30df7710ca5c6948ced50f0d1f38f2e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 17/42] fix: requisite_graph removes nonrequisite observation
 links until none is left

---
 pycid/analyze/requisite_graph.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycid/analyze/requisite_graph.py b/pycid/analyze/requisite_graph.py
index 2e70d90..54ebe9a 100644
--- a/pycid/analyze/requisite_graph.py
+++ b/pycid/analyze/requisite_graph.py
@@ -43,8 +43,11 @@ def requisite_graph(cid: MACIDBase) -> MACIDBase:
     requisite_graph = cid.copy()
     decisions = cid.get_valid_order()
 
-    for decision in reversed(decisions):
-        non_requisite_nodes = set(cid.get_parents(decision)) - set(requisite_list(requisite_graph, decision))
-        for nr in non_requisite_nodes:
-            requisite_graph.remove_edge(nr, decision)
+    removed = True
+    while removed:  # an edge removed for one decision can make observations of other decisions nonrequisite
+        removed = False
+        for decision in reversed(decisions):
+            for nr in set(requisite_graph.get_parents(decision)) - set(requisite_list(requisite_graph, decision)):
+                requisite_graph.remove_edge(nr, decision)
+                removed = True
     return requisite_graph
-- 
2.43.0


From 8535d56aea78104e902cf1538f4ab186415b987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 18/42] fix: different decisions of an agent never share an
 information set in the exported game

---
 pycid/export/gambit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index ed81d65..bcdc536 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -32,7 +32,7 @@ def macid_to_efg(
     - agents_in_sg: The agents to include in the EFG. If None, all agents are included.
     Returns:
     - game: The pygambit game object. This can be used for further manipulation of the game within pygambit.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     """
 
     # can use on a subgame if copying, else do the whole game
@@ -76,7 +76,7 @@ def macid_to_efg(
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
                 actions = macid.model.domain[node]
-                parents_actions_tuple = (agent, tuple(parents_actions.items()))  # hashable
+                parents_actions_tuple = (node, tuple(parents_actions.items()))  # hashable
                 # check if this matches an existing infoset
                 if parents_actions_tuple in parents_to_infoset:
                     cur_infoset = parents_to_infoset[parents_actions_tuple]
@@ -182,7 +182,7 @@ def behavior_to_cpd(
     """Convert a pygambit behavior strategy to list of CPDs for each decision node.
     Args:
     - macid: The MACID object relating to the behavior strategy.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     - behavior: The pygambit behavior strategy.
     - decisions_in_sg: The decisions in the subgame. If None, use all decisions in the MACID.
     Returns:
@@ -191,7 +191,7 @@ def behavior_to_cpd(
 
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (macid.decision_agent[node], tuple(pv.items()))
+        pv_tuple = (node, tuple(pv.items()))
         # get the infoset for the node
         infoset = parents_to_infoset[pv_tuple]
         # if the infoset does not exist, this is not a valid parent instantiation
-- 
2.43.0


From bdbac06130a785026faa35acb342acb8ec6564e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 19/42] fix: macid_to_efg handles chance moves with parents
 outside the game tree

---
 pycid/export/gambit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index bcdc536..74e8f32 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -67,11 +67,10 @@ def macid_to_efg(
         for node_idx in itertools.product(*range_num_children[:i]):
             # get current node
             cur_node = _get_cur_node(game, node_idx)
-            parents = macid.get_parents(node)
-            parents_actions = {parent: node_idx_to_state[node_idx][parent] for parent in parents}
 
             # if the node is a decision, consider infosets
             if node in decisions_in_sg:
+                parents_actions = {parent: node_idx_to_state[node_idx][parent] for parent in macid.get_parents(node)}
                 # get agent and domain
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
@@ -96,7 +95,8 @@ def macid_to_efg(
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
             else:
                 # otherwise is a chance node
-                factor = macid.query([node], context=parents_actions)
+                # condition on the whole path, as some parents of the node may not be in the game tree
+                factor = macid.query([node], context=node_idx_to_state[node_idx])
                 move = cur_node.append_move(game.players.chance, factor.cardinality)
                 # add state info
                 actions = macid.model.domain[node]
-- 
2.43.0


From 8730060f5ee580cddb6c73aa32db8d3c9f7af97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 20/42] fix: macid_to_efg handles paths with probability zero

---
 pycid/export/gambit.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 74e8f32..f5e6d07 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -6,6 +6,7 @@ from functools import partial, update_wrapper
 from typing import Any, Callable, Dict, Hashable, Iterable, KeysView, List, Mapping, Optional, Set, Tuple, Union
 from warnings import warn
 
+import numpy as np
 import pygambit
 
 from pycid.core.cpd import StochasticFunctionCPD
@@ -100,7 +101,10 @@ def macid_to_efg(
                 move = cur_node.append_move(game.players.chance, factor.cardinality)
                 # add state info
                 actions = macid.model.domain[node]
-                for action_idx, prob in enumerate(factor.values):
+                probs = factor.values
+                if np.isnan(probs).any():  # the path has probability zero, so any distribution will do
+                    probs = np.ones(len(actions)) / len(actions)
+                for action_idx, prob in enumerate(probs):
                     move.actions[action_idx].label = str(actions[action_idx])
                     move.actions[action_idx].prob = pygambit.Decimal(prob)
                     state_info = node_idx_to_state[node_idx].copy()
@@ -248,7 +252,10 @@ def _add_payoffs(
         # name outcome as a string of the node_idx
         payoff_tuple = game.outcomes.add(str(node_idx))
         for i, agent in enumerate(agents_in_sg):
-            payoff = macid.expected_utility(context=context, agent=agent)
+            try:
+                payoff = macid.expected_utility(context=context, agent=agent)
+            except RuntimeError:  # the path has probability zero, so any payoff will do
+                payoff = 0
             payoff_tuple[i] = pygambit.Decimal(payoff)
         cur_node.outcome = payoff_tuple
 
-- 
2.43.0


From 61e5ffe7f6cd60c9bcf58986449287c729274b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 21/42] fix: decision rules are well-defined at information
 sets that the agent's own actions exclude

---
 pycid/export/gambit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index f5e6d07..91c31f4 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -204,6 +204,9 @@ def behavior_to_cpd(
             return {}
         # get the action probs for the infoset
         action_probs = {macid.model.domain[node][i]: float(prob) for i, prob in enumerate(behavior[infoset])}
+        # the strategy doesn't specify what to do at infosets that the player's own actions exclude
+        if not any(action_probs.values()):
+            return {}
         return action_probs
 
     def _wrapped_partial(func: Callable, *args: str) -> Callable:
-- 
2.43.0


From 9bc4a740a1635e5a6ec5b63c1d6bbfb6984b78f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 22/42] fix: subgames include active decisions and relevant
 nodes that have no edges

---
 pycid/core/macid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index a20a4d9..adc7425 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -89,6 +89,7 @@ class MACID(MACIDBase):
                 sg_agents_utils[agent] = [node]
         # instantiate the skeleton of this MAID
         sg_macid = MACID(edges=edges_sg, agent_decisions=sg_agents_decs, agent_utilities=sg_agents_utils)
+        sg_macid.add_nodes_from(r_nodes_plus_decs)  # include nodes without edges
 
         # random initialise decisions not already instantiated that aren't active in this subgame.
         # (this is to ensure that they are all "fully mixed - i.e., every action is chosen with positive probability")
-- 
2.43.0


From ccfe323ece4a733df5eff3c2812da09247dabfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 23/42] fix: create_subgame keeps the domains of marginalised
 nodes in order, and accepts TabularCPDs

---
 pycid/core/macid.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index adc7425..37c2613 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -106,9 +106,8 @@ class MACID(MACIDBase):
         for node in parents_for_marginalisation_of_original_cpd:
             cpd = macid_copy.get_cpds(node)
             cpd.marginalize(macid_copy.get_parents(node))
-            marginalised_probs = cpd.get_values()
-            unpack_probs = [item for sublist in marginalised_probs for item in sublist]
-            sg_macid.model[node] = dict(zip(cpd.domain, unpack_probs))
+            domain = macid_copy.model.domain[node]
+            sg_macid.model[node] = TabularCPD(node, len(domain), cpd.get_values(), state_names={node: domain})
 
         # copy over the cpds for everything else
         for node in set(sg_macid.nodes) - parents_for_marginalisation_of_original_cpd:
-- 
2.43.0


From 325945bcbdd93e75de6f1dc48561fdf817d2ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 24/42] fix: removing a node also removes its role, so that
 models with disconnected decisions or utilities can be queried

---
 pycid/core/macid_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 1cdc323..946ef2b 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -142,6 +142,12 @@ class MACIDBase(CausalBayesianNetwork):
             agent = self.utility_agent.pop(node)
             self.agent_utilities[agent].remove(node)
 
+    def remove_node(self, node: str) -> None:
+        """Remove a node, together with its role"""
+        if node in self.nodes():
+            self.make_chance(node)
+        super().remove_node(node)
+
     def add_cpds(self, *cpds: TabularCPD, **relationships: Union[Relationship, List[Outcome]]) -> None:
         super().add_cpds(*cpds, **relationships)
 
-- 
2.43.0


From dde9f369f13ec0e3ca303ce55d0956cbbfec2088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 25/42] fix: copies of decision domains know the outcomes of
 the other variables, so queries that marginalise their parents work

---
 pycid/core/cpd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 7c04a98..31550e4 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -250,7 +250,9 @@ class DecisionDomain(ConstantCPD):
         super().__init__(variable, {}, cbn, domain, label=f"Dec({domain})")
 
     def copy(self) -> DecisionDomain:
-        return DecisionDomain(str(self.variable), self.cbn, domain=list(self.domain))
+        copy = DecisionDomain(str(self.variable), self.cbn, domain=list(self.domain))
+        copy.store_state_names(None, None, dict(self.state_names))
+        return copy
 
     def __repr__(self) -> str:
         return f"<DecisionDomain {self.variable}:{self.domain}>"
-- 
2.43.0


From c5c3964398271c662f7baca2ae73a2b34150a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 26/42] fix: expected_value returns the values in the order of
 the given variables

---
 pycid/core/causal_bayesian_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 164c6e9..7fba638 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -239,7 +239,7 @@ class CausalBayesianNetwork(BayesianNetwork):
                         variables, context, idx, prob
                     )
                 )
-        return ev.tolist()  # type: ignore
+        return [ev[factor.variables.index(variable)].item() for variable in variables]
 
     def sample(self, seed: Optional[int] = None) -> Dict[str, Outcome]:
         """
-- 
2.43.0


From 8afb6f035554056a64bdf6420288459be99e58d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 27/42] fix: functions whose arguments don't match the parents
 are rejected with a ValueError, as documented

---
 pycid/core/cpd.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 31550e4..6096264 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -158,13 +158,14 @@ class StochasticFunctionCPD(TabularCPD):
 
     def check_function_arguments_match_parent_names(self) -> None:
         """Raises a ValueError if the parents in the CID don't match the argument to the specified function"""
-        sig = inspect.signature(self.stochastic_function).parameters
+        sig = inspect.signature(self.func).parameters
         arg_kinds = [arg_kind.kind.name for arg_kind in sig.values()]
-        args = set(sig)
-        if "VAR_KEYWORD" not in arg_kinds and args != set(self.cbn.get_parents(self.variable)):
+        parents = set(self.cbn.get_parents(self.variable))
+        # arguments with a default value don't need to be parents
+        args = {name for name, arg in sig.items() if name in parents or arg.default is arg.empty}
+        if "VAR_KEYWORD" not in arg_kinds and args != parents:
             raise ValueError(
-                f"function for {self.variable} mismatch parents on"
-                f" {args.symmetric_difference(set(self.cbn.get_parents(self.variable)))}, "
+                f"function for {self.variable} mismatch parents on {args.symmetric_difference(parents)}, "
             )
 
     def parent_values(self) -> Iterator[Dict[str, Outcome]]:
-- 
2.43.0


From d90aff105fd7c2545a7f70a1e2ab8312ad9605e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 28/42] fix: sample follows the distribution for integer
 outcomes other than 0, 1, 2, ...

---
 pycid/core/causal_bayesian_network.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 7fba638..54a9cf1 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -245,8 +245,19 @@ class CausalBayesianNetwork(BayesianNetwork):
         """
         Generates a sample from the joint distribution, and returns it as a dictionary {variable: outcome}
         """
-        sampled_df = BayesianModelSampling(self).forward_sample(size=1, seed=seed, show_progress=False)
-        return {var: sampled_df[var][0] for var in sampled_df.columns}
+        # pgmpy confuses outcomes with their positions in the domain if the outcomes are integers,
+        # so we sample positions
+        network = BayesianNetwork()
+        network.add_nodes_from(self.nodes)
+        network.add_edges_from(self.edges)
+        for cpd in self.get_cpds():
+            network.add_cpds(
+                TabularCPD(
+                    cpd.variable, cpd.variable_card, cpd.get_values(), cpd.variables[1:], cpd.cardinality[1:].tolist()
+                )
+            )
+        sampled_df = BayesianModelSampling(network).forward_sample(size=1, seed=seed, show_progress=False)
+        return {var: self.get_cpds(var).state_names[var][sampled_df[var][0]] for var in sampled_df.columns}
 
     def copy_without_cpds(self) -> CausalBayesianNetwork:
         """copy the CausalBayesianNetwork object"""
-- 
2.43.0


From 508bdb533bb5c8743f15dad56d64431465186aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 29/42] fix: distributions of a copied model refer to the copy,
 not to the original model

---
 pycid/core/causal_bayesian_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 54a9cf1..d049d27 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -270,7 +270,10 @@ class CausalBayesianNetwork(BayesianNetwork):
         """copy the MACIDBase object"""
         model_copy = self.copy_without_cpds()
         for v in self.model:
-            model_copy.model[v] = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            relationship = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            if isinstance(relationship, StochasticFunctionCPD):
+                relationship.cbn = model_copy  # otherwise, changes to self would affect the copy
+            model_copy.model[v] = relationship
         return model_copy
 
     def _get_color(self, node: str) -> Union[np.ndarray, str]:
-- 
2.43.0


From 75f8edf3897302405ae91eb11e2a4e9f6c85baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 30/42] fix: equilibria of numerical solvers are accepted
 despite rounding errors

---
 pycid/export/gambit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 91c31f4..a48cd00 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -202,8 +202,10 @@ def behavior_to_cpd(
         # TODO this was needed previously, but probably not needed anymore
         if not infoset:
             return {}
-        # get the action probs for the infoset
-        action_probs = {macid.model.domain[node][i]: float(prob) for i, prob in enumerate(behavior[infoset])}
+        # get the action probs for the infoset (numerical solvers can overshoot 0 or 1 by a rounding error)
+        action_probs = {
+            macid.model.domain[node][i]: min(max(float(prob), 0.0), 1.0) for i, prob in enumerate(behavior[infoset])
+        }
         # the strategy doesn't specify what to do at infosets that the player's own actions exclude
         if not any(action_probs.values()):
             return {}
-- 
2.43.0


From 40cec5c99080ddaa72c42e777ab2717a35954a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 31/42] fix: create_subgame leaves the active decisions open

---
 pycid/core/macid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 37c2613..846de84 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -94,7 +94,7 @@ class MACID(MACIDBase):
         # random initialise decisions not already instantiated that aren't active in this subgame.
         # (this is to ensure that they are all "fully mixed - i.e., every action is chosen with positive probability")
         macid_copy = self.copy()
-        for d in macid_copy.decisions:
+        for d in set(macid_copy.decisions).difference(active_subgame_decs):
             if not macid_copy.is_s_reachable(active_subgame_decs, d) and isinstance(
                 macid_copy.get_cpds(d), DecisionDomain
             ):
-- 
2.43.0


From 6de872862b696050f7f8f8fd0e83b02be816b22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 32/42] fix: get_spe solves each subgame with the irrelevant
 decisions fully mixed, so that rules are optimal in every context

---
 pycid/core/macid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 846de84..63dc006 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -161,12 +161,13 @@ class MACID(MACIDBase):
         """
         spes: List[List[StochasticFunctionCPD]] = [[]]
 
-        macid = self.copy()
         # backwards induction over the sccs in the condensed relevance graph (handling tie-breaks)
-        for scc in reversed(CondensedRelevanceGraph(macid).get_scc_topological_ordering()):
+        for scc in reversed(CondensedRelevanceGraph(self).get_scc_topological_ordering()):
             extended_spes = []
             for partial_profile in spes:
-                macid.add_cpds(*partial_profile)
+                # decisions that the scc doesn't rely on stay open, and so are fully mixed in the subgame
+                macid = self.copy()
+                macid.add_cpds(*[cpd for cpd in partial_profile if self.is_s_reachable(list(scc), cpd.variable)])
                 ne_in_sg = macid.get_ne_in_sg(decisions_in_sg=scc, solver=solver)
                 for ne in ne_in_sg:
                     extended_spes.append(partial_profile + list(ne))
-- 
2.43.0


From f1afafc99cfdfa4cab9b30c44043388e0cb443d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 33/42] fix: exported games leave the decisions of the game to
 the players even if they have rules

---
 pycid/export/gambit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index a48cd00..28a5adf 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -42,6 +42,10 @@ def macid_to_efg(
     if agents_in_sg is None:
         agents_in_sg = macid.agents
 
+    # the players make these decisions, whatever decision rules the macid has for them
+    open_macid = macid.copy()
+    open_macid.add_cpds(**{dec: macid.model.domain[dec] for dec in decisions_in_sg})
+
     # choose only relevant nodes
     game_tree_nodes = set(
         list(decisions_in_sg) + [parent for dec in decisions_in_sg for parent in macid.get_parents(dec)]
@@ -97,7 +101,7 @@ def macid_to_efg(
             else:
                 # otherwise is a chance node
                 # condition on the whole path, as some parents of the node may not be in the game tree
-                factor = macid.query([node], context=node_idx_to_state[node_idx])
+                factor = open_macid.query([node], context=node_idx_to_state[node_idx])
                 move = cur_node.append_move(game.players.chance, factor.cardinality)
                 # add state info
                 actions = macid.model.domain[node]
@@ -111,7 +115,7 @@ def macid_to_efg(
                     state_info.update({node: actions[action_idx]})
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
 
-    game = _add_payoffs(macid, game, range_num_children, node_idx_to_state, agents_in_sg)
+    game = _add_payoffs(open_macid, game, range_num_children, node_idx_to_state, agents_in_sg)
 
     return game, parents_to_infoset
 
-- 
2.43.0


From c23ff3888712b264898c817b4bfc66cd579237f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:06 +0000
Subject: [PATCH 34/42] fix: rounding errors don't decide between equally good
 actions in exported games and their equilibria

---
 pycid/export/gambit.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 28a5adf..0ed7603 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import itertools
 from collections import defaultdict
+from fractions import Fraction
 from functools import partial, update_wrapper
 from typing import Any, Callable, Dict, Hashable, Iterable, KeysView, List, Mapping, Optional, Set, Tuple, Union
 from warnings import warn
@@ -108,9 +109,10 @@ def macid_to_efg(
                 probs = factor.values
                 if np.isnan(probs).any():  # the path has probability zero, so any distribution will do
                     probs = np.ones(len(actions)) / len(actions)
-                for action_idx, prob in enumerate(probs):
+                rational_probs = [_to_rational(prob) for prob in probs]
+                for action_idx, prob in enumerate(rational_probs):
                     move.actions[action_idx].label = str(actions[action_idx])
-                    move.actions[action_idx].prob = pygambit.Decimal(prob)
+                    move.actions[action_idx].prob = pygambit.Rational(prob / sum(rational_probs))
                     state_info = node_idx_to_state[node_idx].copy()
                     state_info.update({node: actions[action_idx]})
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
@@ -265,12 +267,18 @@ def _add_payoffs(
                 payoff = macid.expected_utility(context=context, agent=agent)
             except RuntimeError:  # the path has probability zero, so any payoff will do
                 payoff = 0
-            payoff_tuple[i] = pygambit.Decimal(payoff)
+            payoff_tuple[i] = pygambit.Rational(_to_rational(payoff))
         cur_node.outcome = payoff_tuple
 
     return game
 
 
+def _to_rational(number: float) -> Fraction:
+    """The fraction a floating point number stands for. Otherwise, rounding errors would decide between
+    actions that are equally good, as solvers compute with exact numbers."""
+    return Fraction(float(number)).limit_denominator(10**9)
+
+
 def _get_cur_node(game: pygambit.Game, idx: Tuple[int, ...]) -> pygambit.Node:
     """Returns the current node in the game tree given the index of the node."""
     cur_node = game.root
-- 
2.43.0


From de63005d63f8d9e81ede03cb25756c79b4d0f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 35/42] fix: optimal_pure_policies finds all optimal policies
 when the maximal expected utility is zero

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 946ef2b..d6faccc 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -356,7 +356,7 @@ class MACIDBase(CausalBayesianNetwork):
         for policy in macid.pure_policies(decisions):
             macid.add_cpds(*policy)
             expected_utility = macid.expected_utility({}, agent=agent)
-            if math.isclose(expected_utility, max_utility, rel_tol=rel_tol):
+            if math.isclose(expected_utility, max_utility, rel_tol=rel_tol, abs_tol=1e-12):
                 optimal_policies.append(policy)
             elif expected_utility > max_utility:
                 optimal_policies = [policy]
-- 
2.43.0


From 401a17d6fc5f0f80d183709259d3cc6be1f0b8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 36/42] fix: query results and contexts use the outcome names
 even where pgmpy's junction tree numbers the outcomes

---
 pycid/core/causal_bayesian_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index d049d27..4225db2 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -174,6 +174,8 @@ class CausalBayesianNetwork(BayesianNetwork):
             raise ValueError(f"query {query} contains nodes in disconnected components")
 
         bp = BeliefPropagation(cbn)
+        for factor in bp.junction_tree.get_factors():  # pgmpy may number the outcomes instead of using their names
+            factor.store_state_names(None, None, {var: cbn.model.domain[var] for var in factor.variables})
 
         with np.errstate(invalid="ignore"):  # Suppress numpy warnings for 0/0
             factor = bp.query(query, context, show_progress=False)
-- 
2.43.0


From f77e07577d6c8f61bf4c1d08aebda2f10512abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 37/42] fix: the expected value of an observed variable is its
 observed value, so games in which utilities are observed can be solved

---
 pycid/core/causal_bayesian_network.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 4225db2..d5dd416 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -222,9 +222,10 @@ class CausalBayesianNetwork(BayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
         variables = list(variables)
-        if not variables:
-            return []
-        factor = self.query(variables, context, intervention=intervention)
+        unobserved = [variable for variable in variables if variable not in context]
+        if not unobserved:
+            return [context[variable] for variable in variables]
+        factor = self.query(unobserved, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
         ev = np.array([0.0 for _ in factor.variables])
@@ -241,7 +242,10 @@ class CausalBayesianNetwork(BayesianNetwork):
                         variables, context, idx, prob
                     )
                 )
-        return [ev[factor.variables.index(variable)].item() for variable in variables]
+        return [
+            context[variable] if variable in context else ev[factor.variables.index(variable)].item()
+            for variable in variables
+        ]
 
     def sample(self, seed: Optional[int] = None) -> Dict[str, Outcome]:
         """
-- 
2.43.0


From a76b75016fdc1c46d3c873fe4e1901b27e97f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 38/42] fix: a variable can be specified while a parent's
 distribution has been removed

The domain of a removed variable is remembered by the model, so a child's
distribution can still be tabulated; asking the CBN for the cardinality raised
AttributeError because the parent had no CPD at that moment.
---
 pycid/core/cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 6096264..48f7f77 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -103,7 +103,7 @@ class StochasticFunctionCPD(TabularCPD):
 
         card = len(self.domain)
         evidence = cbn.get_parents(self.variable)
-        evidence_card = [cbn.get_cardinality(p) for p in evidence]
+        evidence_card = [len(cbn.model.domain[p]) for p in evidence]
         probability_list = []
         for pv in self.parent_values():
             probabilities = complete_prob_dictionary(self.stochastic_function(**pv))
-- 
2.43.0


From 240b2e4e3a9841c496734ebbbe5f3e65cb42f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:15 +0000
Subject: [PATCH 39/42] fix: removing a variable also removes a specification
 that is still waiting for its parents

---
 pycid/core/causal_bayesian_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index d5dd416..b10f83b 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -94,6 +94,12 @@ class CausalBayesianNetwork(BayesianNetwork):
         self.model = self.Model(self)
         super().__init__(ebunch=edges, **kwargs)
 
+    def remove_node(self, node: str) -> None:
+        """Remove a node, together with its relationship, even if that has not been instantiated yet"""
+        super().remove_node(node)
+        if node in self.model:
+            del self.model[node]
+
     def remove_edge(self, u: str, v: str) -> None:
         """removes an edge u to v that exists from the CBN"""
         super().remove_edge(u, v)
-- 
2.43.0


From 849289783fc3b3a96001789887e88d8e9d105ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 40/42] fix: removing several edges at once re-derives the
 distributions of their heads

---
 pycid/core/causal_bayesian_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index b10f83b..5109505 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -106,6 +106,12 @@ class CausalBayesianNetwork(BayesianNetwork):
         if v in self.model and isinstance(self.get_cpds(v), ConstantCPD):
             self.model[v] = self.model[v]
 
+    def remove_edges_from(self, ebunch: Iterable[Tuple[str, str]]) -> None:
+        """removes all given edges that exist from the CBN"""
+        for edge in list(ebunch):
+            if self.has_edge(edge[0], edge[1]):
+                self.remove_edge(edge[0], edge[1])
+
     def add_edge(self, u: str, v: str, **kwargs: Any) -> None:
         """adds an edge from u to v to the CBN"""
         super().add_edge(u, v, **kwargs)
-- 
2.43.0


From e0c71487aa60204e231adbaeae59ee7544035196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 41/42] fix: an iterator can be given wherever an iterable is
 asked for

---
 pycid/core/causal_bayesian_network.py | 1 +
 pycid/core/macid.py                   | 1 +
 pycid/core/macid_base.py              | 4 ++--
 pycid/core/relevance_graph.py         | 3 +--
 pycid/export/gambit.py                | 1 +
 5 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 5109505..a4cbbdb 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -160,6 +160,7 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
+        query = list(query)
         for variable, outcome in context.items():
             if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 63dc006..1a56540 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -63,6 +63,7 @@ class MACID(MACIDBase):
         Returns:
         - the subgame (MACID) object
         """
+        active_subgame_decs = list(active_subgame_decs)
         # find the nodes that are r-relevant for the active_subgame_decs
         r_nodes = [node for node in self.nodes if self.is_r_reachable(active_subgame_decs, node)]
         # adds the dection nodes to this set
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index d6faccc..11bd00f 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -167,6 +167,7 @@ class MACIDBase(CausalBayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
+        query = list(query)
         for variable, outcome in context.items():
             if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
@@ -252,8 +253,7 @@ class MACIDBase(CausalBayesianNetwork):
         """
         if isinstance(decisions, str):
             decisions = [decisions]
-        if isinstance(nodes, str):
-            nodes = [nodes]
+        nodes = [nodes] if isinstance(nodes, str) else list(nodes)
         mg = MechanismGraph(self)
         for decision in decisions:
             for node in nodes:
diff --git a/pycid/core/relevance_graph.py b/pycid/core/relevance_graph.py
index cf83a94..c393940 100644
--- a/pycid/core/relevance_graph.py
+++ b/pycid/core/relevance_graph.py
@@ -23,8 +23,7 @@ class RelevanceGraph(nx.DiGraph):
 
     def __init__(self, cid: MACIDBase, decisions: Optional[Iterable[str]] = None):
         super().__init__()
-        if decisions is None:
-            decisions = cid.decisions
+        decisions = list(cid.decisions if decisions is None else decisions)
         self.add_nodes_from(decisions)
         dec_pair_perms = list(itertools.permutations(decisions, 2))
         for dec_pair in dec_pair_perms:
diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 0ed7603..7d4968b 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -42,6 +42,7 @@ def macid_to_efg(
         decisions_in_sg = macid.decisions
     if agents_in_sg is None:
         agents_in_sg = macid.agents
+    agents_in_sg = list(agents_in_sg)
 
     # the players make these decisions, whatever decision rules the macid has for them
     open_macid = macid.copy()
-- 
2.43.0


From b02a260375611f5723f30f88acef601767742604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:55 +0000
Subject: [PATCH 42/42] fix: a model keeps its own copies of the specifications
 it is given

---
 pycid/core/causal_bayesian_network.py | 14 ++++++++++++++
 pycid/core/cpd.py                     |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index a4cbbdb..bacc4e9 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import collections
+import copy
 from typing import Any, Callable, Dict, Iterable, List, Mapping, Optional, Set, Tuple, Union
 
 import matplotlib.pyplot as plt
@@ -36,6 +37,8 @@ class CausalBayesianNetwork(BayesianNetwork):
             self.domain: Dict[str, List[Outcome]] = {}
 
         def __setitem__(self, variable: str, relationship: Relationship) -> None:
+            relationship = self._own(relationship)
+
             # Update the keys
             if variable in self.keys():
                 self.__delitem__(variable)
@@ -72,6 +75,17 @@ class CausalBayesianNetwork(BayesianNetwork):
             for cpd in self.cbn.get_cpds():
                 cpd.store_state_names(None, None, dict(self.domain))
 
+        @staticmethod
+        def _own(relationship: Relationship) -> Relationship:
+            """A copy of the relationship that isn't shared with the caller or with another model"""
+            if isinstance(relationship, TabularCPD):
+                own = copy.copy(relationship)
+                own.variables, own.cardinality = list(own.variables), own.cardinality.copy()
+                own.values = own.values.copy()
+                own.store_state_names(None, None, {var: list(names) for var, names in own.state_names.items()})
+                return own
+            return relationship.copy() if isinstance(relationship, (dict, list)) else relationship
+
         def to_tabular_cpd(self, variable: str, relationship: Relationship) -> TabularCPD:
             if isinstance(relationship, TabularCPD):
                 return relationship
diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 48f7f77..0c6f5fb 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -78,7 +78,7 @@ class StochasticFunctionCPD(TabularCPD):
             # TODO: get rid of domain
 
         assert isinstance(domain, (list, type(None)))
-        self.force_domain: Optional[Sequence[Outcome]] = domain
+        self.force_domain: Optional[Sequence[Outcome]] = list(domain) if domain else domain
 
         assert isinstance(label, (str, type(None)))
         self.label = label if label is not None else self.compute_label(stochastic_function)
-- 
2.43.0

