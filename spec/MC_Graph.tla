------------------------------ MODULE MC_Graph ------------------------------
(* Exhaustive: on every DAG over 1..N (edges going up, i.e. every DAG up to renaming) the three
   characterisations of d-connection agree. *)
EXTENDS Graph
CONSTANT N
Nodes == 1..N
Pairs == {<<i, j>> \in Nodes \X Nodes : i < j}
VARIABLE E
Init == E \in SUBSET Pairs
Next == UNCHANGED E
Spec == Init /\ [][Next]_E
Agree == \A x \in Nodes : \A Z \in SUBSET (Nodes \ {x}) :
            LET r == Reach(E, x, Z) IN
            \A y \in (Nodes \ Z) \ {x} :
               /\ (y \in r) = DConnPaths(E, x, y, Z)
               /\ (y \in r) = DConnMoral(E, x, y, Z)
               /\ (y \in r) = (x \in Reach(E, y, Z))
TopoOk == IsTopoOrderOf(Topo(Nodes, E), Nodes, E)
BackFront == \A x \in Nodes, y \in Nodes : x # y =>
   \A Z \in SUBSET (Nodes \ {x, y}) :
      (BackdoorTrail(E, x, y, Z) => DConn(E, x, y, Z)) /\ (IndirectFrontdoorTrail(E, x, y, Z) => DConn(E, x, y, Z))
=============================================================================
