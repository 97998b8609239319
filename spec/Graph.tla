------------------------------- MODULE Graph -------------------------------
(* Directed graphs: a set of nodes N and a set of pairs E.  Everything is stated twice where
   it pays: once as a definition over paths, once as a closure; MC_Graph checks that the two
   agree on every DAG of a given size. *)
EXTENDS Num

Pa(E, v) == {e[1] : e \in {x \in E : x[2] = v}}
Ch(E, v) == {e[2] : e \in {x \in E : x[1] = v}}

RECURSIVE Closure(_, _, _)
\* least superset of frontier F closed under successor step E (pairs); S already visited
Closure(E, S, F) == IF F = {} THEN S
                    ELSE LET nxt == UNION {Ch(E, v) : v \in F} \ (S \cup F)
                         IN Closure(E, S \cup F, nxt)
Rev(E) == {<<e[2], e[1]>> : e \in E}
DescOrSelf(E, v) == Closure(E, {}, {v})
Desc(E, v) == Closure(E, {}, Ch(E, v))
Anc(E, v) == Closure(Rev(E), {}, Pa(E, v))
AncOfSet(E, S) == Closure(Rev(E), {}, S)          \* S and its ancestors
DescOfSet(E, S) == Closure(E, {}, S)              \* S and its descendants
Acyclic(N, E) == \A v \in N : v \notin Desc(E, v)
IsDag(N, E) == /\ \A e \in E : e[1] \in N /\ e[2] \in N
               /\ Acyclic(N, E)
Component(E, v) == Closure(E \cup Rev(E), {}, {v})
Connected(N, E) == N = {} \/ \A v \in N : Component(E, v) = N

\* a topological order of the nodes S of an acyclic graph (smallest available first)
RECURSIVE Topo(_, _)
Topo(S, E) == IF S = {} THEN <<>>
              ELSE LET ready == {v \in S : Pa(E, v) \cap S = {}}
                       v == CHOOSE v \in ready : \A w \in ready : v <= w
                   IN <<v>> \o Topo(S \ {v}, E)
\* s lists exactly the set S, and no later element is an ancestor of an earlier one
IsTopoOrderOf(s, S, E) ==
  /\ IsInjSeq(s) /\ Range(s) = S
  /\ \A i, j \in 1..Len(s) : i < j => s[j] \notin Anc(E, s[i])

-----------------------------------------------------------------------------
(* Simple paths, as sequences of distinct nodes *)
RECURSIVE DirPathsFrom(_, _, _)
DirPathsFrom(E, p, t) ==          \* simple directed paths extending p and ending in t
  LET v == p[Len(p)] IN
  IF v = t THEN {p}
  ELSE UNION {DirPathsFrom(E, Append(p, w), t) : w \in Ch(E, v) \ Range(p)}
DirPaths(E, s, t) == DirPathsFrom(E, <<s>>, t)
UndirPaths(E, s, t) == DirPathsFrom(E \cup Rev(E), <<s>>, t)

IsPath(E, p) == /\ IsInjSeq(p) /\ Len(p) > 0
                /\ \A i \in 1..(Len(p) - 1) : <<p[i], p[i+1]>> \in E \/ <<p[i+1], p[i]>> \in E

\* the connection at position i of path p
Motif(E, p, i) ==
  IF i = Len(p) THEN "endpoint"
  ELSE IF i = 1 THEN (IF <<p[1], p[2]>> \in E THEN "forward" ELSE "backward")
  ELSE LET inF == <<p[i-1], p[i]>> \in E   outF == <<p[i], p[i+1]>> \in E
       IN CASE inF /\ outF -> "forward"
            [] ~inF /\ ~outF -> "backward"
            [] inF /\ ~outF -> "collider"
            [] OTHER -> "fork"
Motifs(E, p) == [i \in 1..Len(p) |-> Motif(E, p, i)]

\* d-connection along one path: no non-collider observed, every collider has an observed descendant-or-self
ActivePath(E, p, Z) ==
  \A i \in 2..(Len(p) - 1) :
     IF Motif(E, p, i) = "collider" THEN DescOrSelf(E, p[i]) \cap Z # {}
     ELSE p[i] \notin Z

DConnPaths(E, x, y, Z) == x \notin Z /\ y \notin Z /\ \E p \in UndirPaths(E, x, y) : ActivePath(E, p, Z)

(* The same by reachability ("Bayes ball"): states are <<node, direction of arrival>>,
   "up" = arrived from a child (or start), "down" = arrived from a parent. *)
RECURSIVE Ball(_, _, _, _, _)
Ball(E, Z, AZ, S, F) ==
  IF F = {} THEN S
  ELSE LET step(s) ==
             LET v == s[1] IN
             IF s[2] = "up"
             THEN IF v \in Z THEN {}
                  ELSE {<<u, "up">> : u \in Pa(E, v)} \cup {<<c, "down">> : c \in Ch(E, v)}
             ELSE (IF v \in Z THEN {} ELSE {<<c, "down">> : c \in Ch(E, v)})
                  \cup (IF v \in AZ THEN {<<u, "up">> : u \in Pa(E, v)} ELSE {})
           nxt == UNION {step(s) : s \in F} \ (S \cup F)
       IN Ball(E, Z, AZ, S \cup F, nxt)
\* nodes d-connected to x given Z (x itself included unless observed)
Reach(E, x, Z) == IF x \in Z THEN {}
                  ELSE {s[1] : s \in Ball(E, Z, AncOfSet(E, Z), {}, {<<x, "up">>})} \ Z
DConn(E, x, y, Z) == y \in Reach(E, x, Z)

(* The same by moralising the ancestral graph *)
DConnMoral(E, x, y, Z) ==
  x \notin Z /\ y \notin Z /\
  LET A == AncOfSet(E, {x, y} \cup Z)
      EA == {e \in E : e[1] \in A /\ e[2] \in A}
      M == EA \cup Rev(EA) \cup
           UNION {{<<u, w>> : u \in Pa(EA, v), w \in Pa(EA, v)} : v \in A}
      MZ == {e \in M : e[1] \notin Z /\ e[2] \notin Z /\ e[1] # e[2]}
  IN y \in DescOrSelf(MZ, x)

-----------------------------------------------------------------------------
BackdoorTrail(E, x, y, Z) == \E p \in UndirPaths(E, x, y) :
   Len(p) > 1 /\ <<p[2], p[1]>> \in E /\ ActivePath(E, p, Z)
IndirectFrontdoorTrail(E, x, y, Z) == \E p \in UndirPaths(E, x, y) :
   /\ Len(p) > 1 /\ <<p[1], p[2]>> \in E /\ ActivePath(E, p, Z)
   /\ \E i \in 1..Len(p) : Motif(E, p, i) = "collider"
DecisionFreeDirPath(E, D, x, y) == \E p \in DirPaths(E, x, y) :
   \A i \in 2..(Len(p) - 1) : p[i] \notin D

(* Strongly connected components of an arbitrary digraph *)
Scc(E, v) == {w \in DescOrSelf(E, v) : v \in DescOrSelf(E, w)}
Sccs(N, E) == {Scc(E, v) : v \in N}
=============================================================================
