-------------------------------- MODULE Api --------------------------------
(* The mutable model API as a state machine: every operator below is one public call, mapping a
   model to the model after the call.  A model m has the diagram fields N, E, dec, util and
     rel   function: node -> its latest specification (only nodes that have one)
     dom   function: node -> outcomes (every node that ever had an instantiated distribution)
     tab   function: node -> instantiated distribution table
   It follows the implementation's structure: specifications are stored immediately,
   instantiated as soon as all parents have domains, and re-derived when a parent's domain
   changes.  MC_Api shows this order-dependent procedure ends in the order-independent
   declarative model Derive(m). *)
EXTENDS Prob

EmptyFn == [x \in {} |-> 0]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, x, y) == (x :> y) @@ f
EmptyModel == [N |-> {}, E |-> {}, dec |-> EmptyFn, util |-> EmptyFn, rel |-> EmptyFn, dom |-> EmptyFn, tab |-> EmptyFn]

\* kinds whose tables are re-derived when parents change (the others are fixed objects)
Rederived(r) == r.k \in {"const", "fun", "dec"}
\* constants: re-derived also when edges change
ConstKind(r) == r.k \in {"const", "dec"}
Settled(m, v) == v \in DOMAIN m.tab /\ m.tab[v].pa = Pa(m.E, v)
Unruled(m, d) == d \notin DOMAIN m.tab \/ m.rel[d].k = "dec"

-----------------------------------------------------------------------------
\* "" or the reason why specifying v as r is an error now
SetError(m, v, r) ==
  LET P == Pa(m.E, v) IN
  IF IsAdopted(r) THEN ""
  ELSE IF ~IsTab(r) /\ ~r.vkw /\ Range(r.args) # P THEN "parents"
  ELSE IF IsTab(r) THEN SpecError(r, P, m.dom)
  ELSE IF ~(P \subseteq DOMAIN m.dom) THEN ""
  ELSE SpecError(r, P, m.dom)

\* a table says everything itself; the rest needs to know the outcomes of the parents
Ready(m, r, P) == IsTab(r) \/ P \subseteq DOMAIN m.dom
RECURSIVE SetRel(_, _, _)
RECURSIVE Cascade(_, _)
SetRel(m, v, r) ==
  LET P == Pa(m.E, v)
      m1 == [m EXCEPT !.rel = Put(@, v, r), !.tab = Drop(@, {v})]
  IN IF SetError(m, v, r) # "" THEN m1
     ELSE IF ~Ready(m, r, P) THEN m1
     ELSE LET D == IF IsTab(r) THEN r.dom ELSE DomainOf(r, Asgs(P, m.dom))
              m2 == [m1 EXCEPT !.dom = Put(@, v, D), !.tab = Put(@, v, TableOf(r, P, D, m.dom))]
          IN IF v \in DOMAIN m.dom /\ m.dom[v] = D THEN m2
             ELSE Cascade(m2, SeqOf(Ch(m.E, v)))
\* re-specify the listed children (that have a re-derivable specification matching their parents)
Cascade(m, cs) ==
  IF cs = <<>> THEN m
  ELSE LET c == Head(cs) IN
       IF c \in DOMAIN m.rel /\ Rederived(m.rel[c])
       THEN Cascade(SetRel(m, c, m.rel[c]), Tail(cs))
       ELSE Cascade(m, Tail(cs))

RECURSIVE SetRels(_, _)
SetRels(m, prs) == IF prs = <<>> THEN m ELSE SetRels(SetRel(m, prs[1][1], prs[1][2]), Tail(prs))

RemoveRel(m, v) == [m EXCEPT !.rel = Drop(@, {v}), !.tab = Drop(@, {v})]

AddNode(m, v) == [m EXCEPT !.N = @ \cup {v}]
Reset(m, v) == IF v \in DOMAIN m.tab /\ ConstKind(m.rel[v]) THEN SetRel(m, v, m.rel[v]) ELSE m
AddEdge(m, u, v) == Reset([m EXCEPT !.N = @ \cup {u, v}, !.E = @ \cup {<<u, v>>}], v)
RemoveEdge(m, u, v) == Reset([m EXCEPT !.E = @ \ {<<u, v>>}], v)

(* a removed node leaves nothing behind except its outcomes, which the specifications of former
   children were derived for *)
RemoveNode(m, v) ==
  LET m1 == [m EXCEPT !.N = @ \ {v}, !.E = {e \in @ : v \notin {e[1], e[2]}}, !.dec = Drop(@, {v}), !.util = Drop(@, {v}),
                      !.rel = Drop(@, {v}), !.tab = Drop(@, {v})]
      R[cs \in SUBSET Ch(m.E, v)] == IF cs = {} THEN m1 ELSE LET c == CHOOSE c \in cs : TRUE IN Reset(R[cs \ {c}], c)
  IN R[Ch(m.E, v)]

MakeChance(m, v) == [m EXCEPT !.dec = Drop(@, {v}), !.util = Drop(@, {v})]
MakeDecision(m, v, a) == [MakeChance(m, v) EXCEPT !.dec = Put(@, v, a)]
MakeUtility(m, v, a) == [MakeChance(m, v) EXCEPT !.util = Put(@, v, a)]

DecRel(D) == [k |-> "dec", args |-> <<>>, coef |-> <<>>, base |-> 0, mod |-> 0, dss |-> << >>, vkw |-> TRUE, dom |-> D]
UnifRel(D) == [DecRel(D) EXCEPT !.k = "unif"]
ConstRel(D, ds) == [DecRel(D) EXCEPT !.k = "const", !.dss = <<ds>>]
ImputeRandom(m, d) == SetRel(m, d, UnifRel(m.dom[d]))
RECURSIVE ImputeRandomAll(_, _)
ImputeRandomAll(m, ds) == IF ds = <<>> THEN m ELSE ImputeRandomAll(ImputeRandom(m, Head(ds)), Tail(ds))
RECURSIVE RemoveRules(_, _)
RemoveRules(m, ds) == IF ds = <<>> THEN m ELSE RemoveRules(SetRel(m, Head(ds), DecRel(m.dom[Head(ds)])), Tail(ds))

Intervene1(m, x, o) ==
  LET D == IF o \in Range(m.dom[x]) THEN m.dom[x] ELSE SortSet(Range(m.dom[x]) \cup {o})
      m1 == [m EXCEPT !.E = {e \in @ : e[2] # x}]
      hit(j) == IF D[j] = o THEN 1 ELSE 0
      \* a dictionary has a sorted domain; other orders need a table, which has no parents for good
      r == IF D = SortSet(Range(D)) THEN ConstRel(D, [j \in 1..Len(D) |-> <<D[j], hit(j), 1>>])
           ELSE [k |-> "tab", vkw |-> TRUE, dom |-> D, pa |-> <<>>, padom |-> <<>>,
                 cols |-> <<[j \in 1..Len(D) |-> <<hit(j), 1>>]>>]
  IN SetRel(m1, x, r)
RECURSIVE Intervene(_, _)
Intervene(m, prs) == IF prs = <<>> THEN m ELSE Intervene(Intervene1(m, prs[1][1], prs[1][2]), Tail(prs))

\* all specifications again, into a model with the same structure
Bare(m) == [m EXCEPT !.rel = EmptyFn, !.dom = EmptyFn, !.tab = EmptyFn]
CopyModel(m) == LET order == SelectSeq(Topo(m.N, m.E), LAMBDA v : v \in DOMAIN m.rel)
                IN SetRels(Bare(m), [i \in 1..Len(order) |-> <<order[i], m.rel[order[i]]>>])

-----------------------------------------------------------------------------
(* Declarative: what the current graph and specifications mean, whatever happened before. *)
Consistent_(m) == \A v \in DOMAIN m.rel : SetError(m, v, m.rel[v]) = ""
RECURSIVE DeriveIn(_, _)
DeriveIn(m, order) ==
  IF order = <<>> THEN m
  ELSE LET v == Head(order) P == Pa(m.E, v) IN
       IF v \in DOMAIN m.rel /\ Ready(m, m.rel[v], P)
       THEN LET r == m.rel[v]  D == IF IsTab(r) THEN r.dom ELSE DomainOf(r, Asgs(P, m.dom))
            IN DeriveIn([m EXCEPT !.dom = Put(@, v, D), !.tab = Put(@, v, TableOf(r, P, D, m.dom))], Tail(order))
       ELSE DeriveIn(m, Tail(order))
Derive(m) == DeriveIn([m EXCEPT !.dom = EmptyFn, !.tab = EmptyFn], Topo(m.N, m.E))
FullySpecified(m) == DOMAIN m.tab = m.N

(* Role invariants *)
RolesOk(m) == DOMAIN m.dec \cap DOMAIN m.util = {}
=============================================================================
