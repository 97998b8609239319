------------------------------ MODULE MC_Api -------------------------------
(* The call-by-call semantics of Api.tla, over all histories of calls on N nodes with a small menu of
   specifications: whatever the history, the model is what its graph and specifications mean. *)
EXTENDS Calls
CONSTANTS N, Rich
Nodes == 1..N
VARIABLE m
Seqs(S) == {s \in [1..Cardinality(S) -> S] : Range(s) = S}
Consts == {ConstRel(<<0, 1>>, <<<<0, 1, 4>>, <<1, 0, 0>>>>), ConstRel(<<0, 1, 2>>, <<<<0, 1, 2>>, <<1, 0, 1>>, <<2, 1, 2>>>>)} \cup
          (IF Rich THEN {ConstRel(<<1>>, <<<<1, 1, 1>>>>)} ELSE {})
Funs(P) == {[k |-> "fun", args |-> SeqOf(P), coef |-> [i \in 1..Cardinality(P) |-> i], base |-> b, mod |-> 2,
             dss |-> ds, vkw |-> FALSE, dom |-> <<>>] :
             b \in {0}, ds \in {<< <<<<0, 1, 1>>>> >>} \cup (IF Rich THEN {<< <<<<0, 1, 2>>, <<1, 1, 2>>>>, <<<<1, 1, 1>>>> >>} ELSE {})}
Decs_ == {DecRel(<<0, 1>>), DecRel(<<1, 0>>)}
Menu(v) == Consts \cup Decs_ \cup (IF Pa(m.E, v) = {} THEN {} ELSE Funs(Pa(m.E, v)))
Init == m = [EmptyModel EXCEPT !.N = Nodes, !.dec = (N :> 1)]
\* an edge changes together with the specification that needs the new parents
EdgeSteps == {<<[op |-> o, u |-> u, v |-> v]>> : o \in {"addedge", "rmedge"}, u \in m.N, v \in m.N}
Fix(es) == LET e == es[1]  n == Call(m, e) IN
  {es} \cup {es \o <<[op |-> "set", v |-> e.v, r |-> r]>> : r \in Funs(Pa(n.E, e.v))}
Calls == {<<[op |-> "set", v |-> v, r |-> r]>> : <<v, r>> \in UNION {{v} \X Menu(v) : v \in m.N}}
   \cup {<<[op |-> "del", v |-> v]>> : v \in DOMAIN m.rel}
   \cup (IF Cardinality(m.N) > 1 THEN {<<[op |-> "rmnode", v |-> v]>> : v \in m.N} ELSE {})
   \cup {<<[op |-> "addnode", v |-> v]>> : v \in Nodes \ m.N}
   \cup UNION {Fix(es) : es \in {es \in EdgeSteps : es[1].u < es[1].v /\ (es[1].op = "addedge") = (<<es[1].u, es[1].v>> \notin m.E)}}
   \cup (IF Full(m) THEN {<<[op |-> "interv", prs |-> <<<<x, o>>>>]>> : <<x, o>> \in UNION {{x} \X Range(m.dom[x]) : x \in m.N}} ELSE {})
Next == \E es \in Calls : Legal(m, es) /\ m' = CallAll(m, es)
Spec == Init /\ [][Next]_m

-----------------------------------------------------------------------------
\* without what is left of removed nodes
Live == [m EXCEPT !.dom = [v \in DOMAIN @ \cap m.N |-> @[v]]]
SoundOk == Sound(m)
\* order does not matter: the state is what the declarative reading gives
DeriveOk == FullySpecified(m) => LET d == Derive(m) IN d.dom = Live.dom /\ d.tab = m.tab
CopyOk == Copyable(m) => CopyModel(m) = Live
\* specifying everything again in any order, parents first or not
OrderOk == (FullySpecified(m) /\ \A v \in m.N : Rederived(m.rel[v])) =>
  \A s \in Seqs(m.N) : LET n == SetRels(Bare(m), [i \in 1..Cardinality(m.N) |-> <<s[i], m.rel[s[i]]>>]) IN n = Live
SameDist(W, X) == \* joint distributions as sets of weighted worlds
  LET a == Weight(W)  b == Weight(X) IN {<<p[1], Rat(p[2], a)>> : p \in W} = {<<p[1], Rat(p[2], b)>> : p \in X}
\* intervening on the model is the truncated factorisation
InterveneOk == Full(m) => \A x \in m.N : \A o \in Range(m.dom[x]) :
  LET n == Intervene1(m, x, o) IN
  /\ Pa(n.E, x) = {} /\ SameDist(Joint(n), Joint(DoModel(m, x :> o)))
  /\ Intervene1(n, x, o) = n
  /\ \A y \in m.N \ {x} : \A q \in Range(m.dom[y]) :
       SameDist(Joint(Intervene1(n, y, q)), Joint(Intervene1(Intervene1(m, y, q), x, o)))
       /\ Intervene(m, <<<<x, o>>, <<y, q>>>>) = Intervene1(n, y, q)
\* seeing is doing for nodes without parents
SeeDo == Full(m) => \A x \in m.N : Pa(m.E, x) = {} =>
  \A o \in Range(m.dom[x]) : LET W == Given_(Joint(m), x :> o) IN W # {} =>
     SameDist({<<p[1], p[2]>> : p \in W}, Joint(DoModel(m, x :> o)))
RulesOk == (Full(m) /\ \A d \in Decs(m) : m.rel[d].k = "dec") =>
  RemoveRules(ImputeRandomAll(m, SeqOf(Decs(m))), SeqOf(Decs(m))) = m
RemoveOk == \A v \in m.N : LET n == RemoveNode(m, v) IN
  /\ v \notin n.N \cup DOMAIN n.rel \cup DOMAIN n.tab \cup Decs(n) \cup Utils(n) /\ n.E \subseteq n.N \X n.N
  /\ \A w \in n.N \ Ch(m.E, v) : w \in DOMAIN m.tab => (w \in DOMAIN n.tab /\ n.tab[w] = m.tab[w])
  \* a leaf is removed without changing the distribution of the others
  /\ (Full(m) /\ Ch(m.E, v) = {} /\ n.N # {}) => \A w \in n.N :
       SameDist(JointOn(m, AncOfSet(m.E, {w})), JointOn(n, AncOfSet(n.E, {w})))
RolesKept == \A v \in m.N : LET n == MakeUtility(MakeDecision(m, v, 2), v, 3) IN
  RolesOk(n) /\ v \notin Decs(n) /\ n.util[v] = 3 /\ MakeChance(n, v).util = Drop(m.util, {v})
=============================================================================
