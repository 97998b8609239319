---------------------------- MODULE MC_Influence ----------------------------
(* Exhaustive over all diagrams with N nodes (edges going up) and roles for agents 1..A:
   well-definedness and consistency of the graphical definitions in Influence.tla. *)
EXTENDS Influence
CONSTANTS N, A
Nodes == 1..N
Pairs == {<<i, j>> \in Nodes \X Nodes : i < j}
\* role codes: 0 chance, a decision of a, -a utility of a
Roles == [Nodes -> (-A)..A]
VARIABLES E, role
g == [N |-> Nodes, E |-> E,
      dec  |-> [d \in {v \in Nodes : role[v] > 0} |-> role[d]],
      util |-> [u \in {v \in Nodes : role[v] < 0} |-> -role[u]]]
Init == /\ role \in Roles
        /\ \E v \in Nodes : role[v] > 0
        /\ \E v \in Nodes : role[v] < 0
        /\ E \in SUBSET Pairs
Next == UNCHANGED <<E, role>>
Spec == Init /\ [][Next]_<<E, role>>

\* removing nonrequisite links in any order gives the same graph
Confluent == Cardinality(ReqGraphs(g)) = 1
ReqIsFix == LET h == ReqGraph(g) IN
   /\ NonReqEdges(h) = {} /\ h.E \subseteq g.E
   /\ \A e \in g.E \ h.E : e[2] \in Decs(g)
SccPartition == LET S == RelSccs(g) IN
   UNION S = Decs(g) /\ \A a, b \in S : a = b \/ a \cap b = {}
SubgamesOk == LET S == SubgameDecs(g) IN
   /\ Decs(g) \in S
   /\ \A a, b \in S : (a \cup b) \in S /\ (a \cap b = {} \/ (a \cap b) \in S)
   /\ \A a \in S : \A c \in RelSccs(g) : c \subseteq a \/ c \cap a = {}
Single == Owners(g) = {1} /\ SufficientRecall(g)
IncentivesOk == Single =>
   /\ \A x \in Nodes : (DirVoC(g, x) => VoC(g, x)) /\ (x \in Decs(g) => ~VoC(g, x))
   /\ \A d \in Decs(g), x \in Nodes :
        /\ IndirVoC(g, d, x) => VoC(g, x)
        /\ (<<x, d>> \in g.E /\ VoI(g, d, x)) => RI(g, d, x)
        /\ VoI(g, d, x) => x \notin DescOrSelf(g.E, d)
        /\ Cardinality(Decs(g)) = 1 /\ x \notin DescOrSelf(g.E, d) =>
              (VoI(g, d, x) = Requisite([g EXCEPT !.E = @ \cup {<<x, d>>}], d, x))
        /\ (UtilsBelow(g, d) = {} => ~RI(g, d, x))
RecallKept == Single => SufficientRecall(ReqGraph(g))
=============================================================================
