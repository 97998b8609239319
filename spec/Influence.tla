----------------------------- MODULE Influence -----------------------------
(* (Multi-agent) influence diagrams, graph part.  A diagram g is a record with fields
     N     set of nodes            E     set of edges
     dec   function: decision node -> agent
     util  function: utility node  -> agent
*)
EXTENDS Graph

Decs(g) == DOMAIN g.dec
Utils(g) == DOMAIN g.util
DecsOf(g, a) == {d \in Decs(g) : g.dec[d] = a}
UtilsOf(g, a) == {u \in Utils(g) : g.util[u] = a}
Owners(g) == {g.dec[d] : d \in Decs(g)} \cup {g.util[u] : u \in Utils(g)}
\* the utilities a decision can influence
UtilsBelow(g, d) == UtilsOf(g, g.dec[d]) \cap Desc(g.E, d)
Fam(g, d) == Pa(g.E, d) \cup {d}

(* "A newly added parent of v is d-connected to t given Z": add node 0 with the single edge
   <<0, v>> (real nodes are positive). *)
WithMech(E, v) == E \cup {<<0, v>>}
MechReach(E, v, Z) == Reach(WithMech(E, v), 0, Z)

RReachable(g, d, v) == UtilsBelow(g, d) \cap MechReach(g.E, v, Fam(g, d)) # {}
\* set versions: some decision of ds, some node of vs
RReachableSets(g, ds, vs) == \E d \in ds, v \in vs : RReachable(g, d, v)
SReachable(g, d1, d2) == RReachable(g, d1, d2)

RelevanceEdges(g, D) == {e \in D \X D : e[1] # e[2] /\ RReachable(g, e[1], e[2])}
SufficientRecallOf(g, a) == LET D == DecsOf(g, a) IN Acyclic(D, RelevanceEdges(g, D))
SufficientRecall(g) == \A a \in Owners(g) : SufficientRecallOf(g, a)

RelSccs(g) == Sccs(Decs(g), RelevanceEdges(g, Decs(g)))
\* decision sets of MAID subgames: non-empty unions of components closed under relevance
ClosedSets(D, R) == {S \in SUBSET D : S # {} /\ DescOfSet(R, S) = S}
SubgameDecs(g) == ClosedSets(Decs(g), RelevanceEdges(g, Decs(g)))

(* Nodes of the subgame for active decisions A *)
SubgameRelevant(g, A) == {v \in g.N : \E d \in A : RReachable(g, d, v)}
SubgameCore(g, A) == SubgameRelevant(g, A) \cup A
SubgameEdges(g, A) == {e \in g.E : e[2] \in SubgameCore(g, A)}
SubgameNodes(g, A) == SubgameCore(g, A) \cup {e[1] : e \in SubgameEdges(g, A)}

-----------------------------------------------------------------------------
(* Requisite observations *)
Requisite(g, d, x) == UtilsBelow(g, d) \cap Reach(g.E, x, Fam(g, d) \ {x}) # {}
RequisiteSet(g, d) == {x \in Pa(g.E, d) : Requisite(g, d, x)}
NonReqEdges(g) == {e \in g.E : e[2] \in Decs(g) /\ ~Requisite(g, e[2], e[1])}
DropEdges(g, S) == [g EXCEPT !.E = @ \ S]
\* removing nonrequisite links until none is left (MC_Influence: the order does not matter)
RECURSIVE ReqGraph(_)
ReqGraph(g) == LET S == NonReqEdges(g) IN
               IF S = {} THEN g ELSE ReqGraph(DropEdges(g, {CHOOSE e \in S : TRUE}))
\* all possible results of removing one link at a time in any order
RECURSIVE ReqGraphs(_)
ReqGraphs(g) == LET S == NonReqEdges(g) IN
                IF S = {} THEN {g} ELSE UNION {ReqGraphs(DropEdges(g, {e})) : e \in S}

-----------------------------------------------------------------------------
(* Incentive criteria for single-agent diagrams with sufficient recall *)
VoI(g, d, x) == /\ x \notin DescOrSelf(g.E, d)
                /\ LET h == ReqGraph([g EXCEPT !.E = @ \cup {<<x, d>>}]) IN <<x, d>> \in h.E
RI(g, d, x) == x # d /\ d \in Desc(ReqGraph(g).E, x)
VoCIn(g, h, x) == x \notin Decs(g) /\ (x \in Utils(g) \/ Desc(h.E, x) \cap Utils(g) # {})
VoC(g, x) == VoCIn(g, ReqGraph(g), x)
DirVoC(g, x) == LET h == ReqGraph(g) IN
   x \notin Decs(g) /\ \E u \in Utils(g) : \E p \in DirPaths(h.E, x, u) : Range(p) \cap Decs(g) = {}
IndirVoC(g, d, x) == LET h == ReqGraph(g) IN
   /\ VoCIn(g, h, x)
   /\ \E u \in Utils(g) :
        /\ \E p \in DirPaths(h.E, x, u) : d \in Range(p)
        /\ u # x /\ BackdoorTrail(h.E, x, u, Fam(g, d) \ {x})
ICI(g, d, x) == \E u \in Utils(g) : u \in DescOrSelf(g.E, x) /\ x \in DescOrSelf(g.E, d)
=============================================================================
