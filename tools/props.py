#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

CBN="pycid/core/causal_bayesian_network.py"; CPD="pycid/core/cpd.py"; MB="pycid/core/macid_base.py"
MA="pycid/core/macid.py"; CID="pycid/core/cid.py"; GP="pycid/core/get_paths.py"; RG="pycid/core/relevance_graph.py"
RQ="pycid/analyze/requisite_graph.py"; GB="pycid/export/gambit.py"; RP="pycid/analyze/reasoning_patterns.py"

p("C01","Queries return the truncated-factorisation distribution",
"For every fully specified Bayesian network, CID or MACID, querying any variables given any positive-probability context on other variables under any interventions returns, after normalising and read by outcome name, exactly P(query | context, do(intervention)): the product of the specified conditional distributions with each intervened variable's own distribution replaced by its forced value, summed and conditioned. Variables in other connected components, the order in which nodes, edges and distributions were added, and anything asked earlier make no difference. A context outcome outside the variable's domain raises ValueError; a joint query over variables that lie in separate components is either answered correctly or refused with ValueError.",
["inputs","histories"],"every DAG, parameterisation, query set, context and intervention, after any history of earlier calls and edits",
"Tests query a handful of hand-made 3-5 node models; the claim ranges over all graphs, domains, contexts, interventions and prior histories.",
[CBN,MB],[("query / intervene / component restriction",CBN),("MACID query",MB)],["CausalBayesianNetwork.query","MACIDBase.query"])

p("C02","Expected values, utilities and causal effects are the exact expectations",
"The expected value of each listed variable given a positive-probability context and interventions (a listed variable may itself be in the context: its expected value is then its observed value) is the probability-weighted sum of its outcomes under the exact conditional interventional distribution, in the order listed; an agent's expected utility is the sum of the expected values of exactly that agent's utility variables. A total effect is the difference between the two interventional expectations (treatment minus baseline), and the introduced total effect is the effect on the decision minus the effect on the outcome, with both signs flipped when the outcome effect is negative and adaptation is on.",
["inputs","histories"],"every model with numeric outcomes, context, intervention, agent and treatment pair",
"Tests check a few expected utilities of fixed examples; sign, ordering, agent selection and context handling must hold for all models.",
[CBN,MB,"pycid/analyze/effects.py"],[("expected_value",CBN),("expected_utility",MB),("total_effect / introduced_total_effect","pycid/analyze/effects.py")],["expected_value","expected_utility","total_effect","introduced_total_effect"])

p("C03","Asking questions never changes the model",
"Every query, expectation, graphical analysis, incentive or value measure, solver, equilibrium computation, export, sampling or copy operation leaves the model it is asked about unchanged: same nodes, edges, roles, agents, domains, conditional distributions and decision-rule status; the lists, sets and dictionaries given as arguments are left as they are, too. In particular a later question receives the same answer whether or not other questions were asked before it, and whether or not an earlier question failed with an error.",
["inputs","histories"],"every model and every sequence of read-only operations, including ones that raise",
"Tests run single operations on fresh models and never compare the model before and after; side effects show only across call sequences and on unusual models.",
[CBN,MB,MA,CID,"pycid/analyze","pycid/export"],[("copies taken before mutating helper steps",CBN+", "+MB+", pycid/analyze/*")],["all read-only public functions"])

p("C04","A conditional distribution means what its specification says",
"A variable given as a function of its parents takes, for every combination of parent outcomes, the returned outcome or the returned distribution with arguments matched to parents by name; probability mass left unspecified (missing or None) is spread evenly over the remaining outcomes of the domain. Domains are exactly the outcomes the specification can produce, sorted, or the explicitly given domain in its given order; a decision domain means those actions, uniform until a rule is imputed; a table means its columns over the parents' outcomes. Specifications that do not match the parents, that fall outside a given domain, or whose probabilities are not within 0-1 or do not sum to 1 are rejected with ValueError.",
["inputs"],"every kind of specification (constant, function, decision domain, table, explicit CPD object, helper constructors), parent set and domain",
"Tests cover two or three functions of one or two binary parents; argument naming, multi-parent ordering, non-binary or unsorted domains and partial distributions are unlimited in variety.",
[CPD,CBN],[("StochasticFunctionCPD / ConstantCPD / DecisionDomain",CPD),("Model.to_tabular_cpd, bernoulli, discrete_uniform, noisy_copy",CBN+", "+CPD)],["get_cpds(...).get_values / model.domain"])

p("C05","Parameterisation is independent of the order of construction steps",
"A model's distributions depend only on the current graph and the latest specification of each variable, not on the order in which variables were specified: a variable becomes usable as soon as all its parents are, whatever the order. Re-specifying a variable with a different domain re-derives every dependent distribution given as a function, through any number of generations, and adding or removing edges, or removing and re-adding specifications, ends in the same model as building the final one directly; a removed variable leaves no specification behind.",
["histories"],"every interleaving of adding, replacing and removing specifications and edges",
"Tests add distributions once in one order, and only one test adds/removes an edge; the cascade behaviour depends on the whole edit history.",
[CBN,MB,CPD],[("Model.__setitem__/__delitem__/sync_state_names",CBN),("add_edge/remove_edge",CBN)],["model contents after edit sequences"])

p("C06","Copies are faithful and independent",
"A copy of a model (network, CID or MACID) has the same nodes, edges, agents, roles, domains, distributions and decision-rule status, and answers every question the same; the copy without distributions has the same structure and none of the distributions. Changing either model afterwards (edges, roles, distributions, interventions, policies) never affects the other, and lists, dictionaries and distribution objects passed in by the caller are not shared with it or between models.",
["inputs","histories"],"every model and every edit sequence applied to the original or the copy",
"One test compares structure of one copy; independence needs edit histories on both sides, with agents that lack utilities or decisions and with every kind of specification.",
[CBN,MB,MA,CID,CPD],[("copy / copy_without_cpds",CBN+", "+MB+", "+MA+", "+CID)],["copy()","copy_without_cpds()"])

p("C07","Role bookkeeping is a consistent partition by agent",
"After any sequence of role changes every node has exactly one role (chance, a decision of one agent, or a utility of one agent); the per-agent lists and the node-to-agent lookups always describe the same assignment without duplicates, and every agent owning a node is reported as an agent. Making a node a decision, utility or chance node moves only that node and keeps the graph; an unknown node raises KeyError and changes nothing, and node shapes and colours used for drawing follow the role (and, for MACIDs, the agent), with exactly the nodes of a highlighted property in the highlight colour. A removed node loses its role.",
["histories"],"every sequence of role changes over any agents, on any graph, on originals and copies",
"Tests change one role on one example; consistency is about arbitrary sequences, several agents and shared inputs.",
[MB,CID,MA],[("make_decision / make_utility / make_chance, agents, decisions, utilities",MB)],["agent_decisions","agent_utilities","decision_agent","utility_agent","agents"])

p("C08","Intervening in place cuts causes and fixes the value, nothing else",
"Applying interventions to a model removes exactly the incoming edges of the intervened variables, makes each take its forced value with certainty while keeping its domain, and leaves all other edges, roles and specifications as they were; functions of an intervened variable continue to be applied to the forced value by name. Any subsequent question answers exactly as asking the original model with the same intervention, and further interventions, edits and copies compose with it.",
["inputs","histories"],"every model, set of interventions (including of decisions, roots, several at once, repeated) and follow-up",
"Tests apply one or two interventions to one 3-node binary network.",
[CBN],[("intervene",CBN)],["intervene","query(..., intervention)"])

p("C09","Questions depending on an unspecified policy are refused, others answered",
"A query raises ValueError exactly when, in the graph after the interventions, a new parent added to some decision that has no decision rule yet would be d-connected to a queried variable given the context and interventions; so no answer ever silently depends on an unspecified policy. When it is not refused, the answer is the same for every policy those decisions might adopt, and imputing a rule for the relevant decisions is always enough to obtain an answer.",
["inputs","histories"],"every influence diagram, every subset of decisions with imputed rules, every query, context and intervention",
"One test exercises one refused query; the guard's exactness is a graphical statement over all diagrams and conditioning sets.",
[MB],[("strategic-relevance guard in query, MechanismGraph",MB)],["MACIDBase.query"])

p("C10","Path and d-separation functions agree with their graph-theoretic definitions",
"On every directed acyclic graph: listing directed (undirected) paths yields every simple directed (undirected) path between two nodes exactly once; motifs along a path are the chain, fork, collider or endpoint the edges show; a path is active given an observed set iff no non-collider on it is observed and every collider is observed or has an observed descendant. An active path is found iff the nodes are d-connected (else ValueError) and what is returned is one; active backdoor trails, active indirect frontdoor trails and decision-free directed paths are reported iff such a path exists; unknown nodes raise KeyError.",
["inputs"],"every DAG, node pair, path and observed set",
"Tests use a few example graphs and fixed node pairs; d-separation has many cases (colliders with observed descendants, several paths, blocked and unblocked) that samples do not reach.",
[GP,MB],[("get_paths functions",GP),("active_trail_nodes wrapper",MB)],["pycid.core.get_paths","is_dconnected"])

p("C11","Strategic relevance, subgames and recall follow their definitions",
"A node is r-reachable (s-reachable for decisions) from a decision iff a new parent added to it would be d-connected to one of the deciding agent's utilities downstream of the decision, given the decision and its observations. The mechanism graph is the diagram with one such parent per node, independent of the original. The relevance graph has exactly those edges among the decisions; its strongly connected components, their dependency ordering, the condensed graph over them and the colours telling them apart in a drawing, the decision sets of all MAID subgames (the non-empty sets of components closed under relevance) and sufficient recall (each agent's own relevance graph is acyclic) follow from it; valid orders are topological orders of the requested nodes.",
["inputs","histories"],"every CID and MACID graph with any number of agents and decisions, before and after edits",
"Tests check a few example diagrams; the criteria quantify over all graphs and conditioning sets.",
[MB,RG,MA],[("is_s_reachable / is_r_reachable / sufficient_recall / get_valid_order",MB),("RelevanceGraph, CondensedRelevanceGraph",RG),("decs_in_each_maid_subgame",MA)],["relevance API"])

p("C12","Requisite observations and the requisite graph are exact",
"An observation of a decision is requisite iff it is d-connected to one of the deciding agent's utilities downstream of the decision given the decision and its other observations; asking about a non-parent raises KeyError. The requisite graph is the original with nonrequisite observation edges removed until none is left and no other change: every remaining observation is requisite there, all other edges, nodes and roles are kept, and the original is untouched.",
["inputs"],"every CID and MACID graph, decision and observation",
"One test uses one example graph; the repeated-removal fixpoint depends on interactions between several decisions.",
[RQ],[("requisite / requisite_list / requisite_graph",RQ)],["requisite","requisite_list","requisite_graph"])

p("C13","Incentive criteria coincide with their graphical definitions",
"For every single-agent diagram with sufficient recall: value of information on X for D iff X is not D or a descendant of D and X stays an observation of D in the requisite graph of the diagram with X->D added; response incentive iff a directed path X to D exists in the requisite graph; value of control iff X is not a decision and is, or has a directed path to, a utility there; direct value of control iff such a path avoids all decisions; indirect value of control for D iff value of control holds and some utility is reached both by a directed path through D and by a backdoor path from X active given D's family in the original graph without X. An instrumental control incentive exists iff a directed path from the decision to a utility passes through X. The list versions return exactly the nodes the predicates accept; diagrams with several agents, or without sufficient recall, raise ValueError and unknown nodes KeyError.",
["inputs"],"every CID graph, decision and node",
"Tests check one or two nodes of story examples per criterion.",
["pycid/analyze/value_of_information.py","pycid/analyze/value_of_control.py","pycid/analyze/response_incentive.py","pycid/analyze/instrumental_control_incentive.py"],[("admits_voi / admits_ri / admits_voc / admits_dir_voc / admits_indir_voc / admits_ici and list versions","pycid/analyze/*")],["admits_*"])

p("C14","Quantitative values of information and control are exact and nonnegative",
"The quantitative value of information is the maximal expected utility with the observation edge minus the maximal expected utility without it, whether or not the diagram has the edge to begin with, and the quantitative value of control of a chance node is the maximal expected utility when that node becomes a decision of the agent minus the maximal expected utility as given. Both are never negative, and a node that does not admit value of information (control) graphically has quantitative value zero under every parameterisation; asking about the decision or its descendants raises ValueError for value of information and unknown nodes KeyError.",
["inputs"],"every parameterised CID with sufficient recall and every node",
"Two examples are tested; soundness of the graphical criterion relates graph and numbers over all parameterisations.",
["pycid/analyze/value_of_information.py","pycid/analyze/value_of_control.py",CID],[("quantitative_voi","pycid/analyze/value_of_information.py"),("quantitative_voc","pycid/analyze/value_of_control.py")],["quantitative_voi","quantitative_voc"])

p("C15","Optimal policies are optimal, and the optimal sets complete",
"The pure decision rules listed for a decision are exactly all functions from its observation outcomes to its actions, each once, the pure policies of several decisions all their combinations; the optimal pure policies (decision rules) are exactly those maximising the owning agent's expected utility given the rules of all other decisions. Imputing an optimal decision picks, in every observation context of positive probability, an action maximising the agent's conditional expected utility; imputing or solving for an optimal policy attains the maximal expected utility over all policies (with or without sufficient recall), keeps the action domains, and solving returns a rule for every decision. Imputing a conditional-expectation decision sets the decision to the expectation of the target given the observations.",
["inputs","histories"],"every parameterised diagram, including ties, unreachable observation contexts, several decisions and other agents' fixed rules",
"Tests solve a few examples with a unique optimum; ties, recall structure, domains and contexts vary without bound.",
[MB,CID],[("pure_decision_rules / optimal_pure_policies / impute_optimal_decision / impute_conditional_expectation_decision",MB),("impute_optimal_policy / solve / optimal_policies",CID)],["policy API"])

p("C16","Returned Nash equilibria are equilibria, and pure enumeration is complete",
"Every profile returned as a Nash equilibrium assigns each decision (of the game or of the requested set) a proper decision rule, and no agent can increase its expected utility by changing its own rules while the others' stay fixed. For games whose agents have perfect recall the pure-strategy solver returns all pure equilibria up to choices at observation contexts the agent's own rules never reach, the default solver returns at least one equilibrium, and for parameterised sub-profiles the already fixed decision rules are respected.",
["inputs","configurations"],"every finite parameterised MACID with 1-3 agents, every solver choice",
"Tests compare equilibria counts of a few example games.",
[MA,GB],[("get_ne / get_ne_in_sg",MA),("pygambit_ne_solver / behavior_to_cpd",GB)],["get_ne","get_ne_in_sg"])

p("C17","Subgame-perfect equilibria induce equilibria in every subgame",
"Every profile returned as subgame perfect assigns a proper decision rule to every decision and, in every MAID subgame, no agent can increase its expected utility by changing its own rules in that subgame; with the pure-strategy solver all pure subgame-perfect profiles are found. A created subgame contains exactly the active decisions, the nodes relevant to them and the observed parents of these, each with its original owner and domain, with the original distributions for the relevant nodes.",
["inputs","configurations"],"every finite parameterised MACID and every set of decisions forming a subgame",
"Tests check the number and values of equilibria in a few examples.",
[MA,RG,GB],[("create_subgame / get_spe",MA),("CondensedRelevanceGraph",RG)],["get_spe","create_subgame"])

p("C18","Exported extensive-form games are faithful to the diagram",
"The exported game tree lists each decision in the game and its observations once along every path, in a causal order; two decision nodes share an information set iff they are the same decision with the same observed outcomes, each owned by the decision's agent with the decision's actions in domain order. Chance moves carry the conditional probability of the outcome given the path, every reachable leaf pays each agent its conditional expected utility given the path, and the written game file describes the same game.",
["inputs"],"every parameterised MACID or CID and choice of decisions and agents",
"Tests export two examples and count equilibria; structure, ordering, information sets and payoffs are compared nowhere.",
[GB],[("macid_to_efg / _add_payoffs / macid_to_gambit_file",GB)],["macid_to_efg","macid_to_gambit_file"])

p("C19","Reasoning patterns satisfy the published graphical criteria",
"Direct effect, manipulation, signaling and revealing/denying are reported for a decision iff its graphical criterion (Pfeffer & Gal, as documented with each function) holds: the existence of the required decision-free, effective, backdoor and indirect frontdoor paths relative to the effective set, where a path is effective when all decisions on it other than the first node and forks are effective. The overall classification uses the largest effective set reached by repeatedly discarding unmotivated decisions, lists each motivated decision under its first applicable pattern, and neither depends on the order in which paths or nodes are enumerated.",
["inputs"],"every MACID graph whose utilities have no children, every decision and effective set",
"Tests check a few example diagrams per pattern.",
[RP,GP],[("direct_effect / manipulation / signaling / revealing_or_denying / get_reasoning_patterns",RP)],["reasoning pattern API"])

p("C20","Random diagrams satisfy every requested constraint",
"For every seed and every satisfiable parameter choice, generated graphs are acyclic, connected, have the requested number of nodes, no node exceeding the maximal in-degree, and at least the requested edge density up to what that in-degree permits; generated diagrams have exactly the requested decisions and utilities per agent, childless utilities, and every decision an ancestor of one of its agent's utilities. Requesting sufficient recall yields a diagram with sufficient recall, requesting distributions yields a fully parameterised one, and the list generators return the requested number within the requested ranges; mismatched or unsatisfiable requests raise ValueError.",
["inputs","configurations"],"every parameter combination and random seed",
"Tests draw a few samples of three configurations and check little about them.",
["pycid/random/random_dag.py","pycid/random/random_macidbase.py","pycid/random/random_cid.py","pycid/random/random_macid.py"],[("random_dag","pycid/random/random_dag.py"),("random_macidbase / _add_sufficient_recalls","pycid/random/random_macidbase.py")],["random_dag","random_cid(s)","random_macid(s)","random_macidbase"])

p("C21","Random distributions and samples are valid, reproducible and side-effect free",
"A random conditional distribution returns, for every parent context, a proper distribution over its whole domain, the same one every time it is asked within a process (whatever else happened in between), the same for equal seeds, and leaves the global random state as it was. Sampling a model returns one outcome of every variable's domain that is jointly possible, distributed as the model says, and reproducible for equal seeds; a model is reported a structural causal model iff every variable with parents is deterministic given them.",
["inputs","histories"],"every domain, smoothness, seed, parent context, model and sampling seed",
"Tests sample once and compare one copy.",
["pycid/random/random_cpd.py",CBN],[("RandomCPD","pycid/random/random_cpd.py"),("sample / is_structural_causal_model",CBN)],["RandomCPD","sample","is_structural_causal_model"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
