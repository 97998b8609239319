------------------------------ MODULE Diagrams ------------------------------
(* Every influence diagram over at most N nodes, printed one per line as "D|<JSON>": nodes are
   numbered along a topological order and agents in the order in which they appear, so that every
   diagram occurs up to renaming.  The harness replays them on pycid with all questions. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json
CONSTANTS N, A, Utilities, Childless, MinD, MinU   \* MinD, MinU: least numbers of decisions and utilities of the largest ones
VARIABLE g

Pairs(n) == {e \in (1..n) \X (1..n) : e[1] < e[2]}
Roles == {<<"c", 0>>} \cup {<<"d", a>> : a \in 1..A} \cup (IF Utilities THEN {<<"u", a>> : a \in 1..A} ELSE {})
InOrder(ro) == \A v \in DOMAIN ro : ro[v][2] > 1 => \E w \in 1..(v - 1) : ro[w][2] = ro[v][2] - 1
Count(ro, k) == Cardinality({v \in DOMAIN ro : ro[v][1] = k})
Fits(n, ro) == /\ InOrder(ro)
               /\ (Utilities => Count(ro, "d") > 0)
               /\ (n = N => (Count(ro, "d") >= MinD /\ Count(ro, "u") >= MinU))
Assignments(n) == {ro \in [1..n -> Roles] : Fits(n, ro)}
Init == \E n \in 1..N : \E ro \in Assignments(n) :
        \E E \in SUBSET {e \in Pairs(n) : ~(Childless /\ ro[e[1]][1] = "u")} :
          g = [n |-> n, E |-> E, ro |-> ro]
Spec == Init /\ [][FALSE]_g
Emit == PrintT("D|" \o ToJson(g))
=============================================================================
