------------------------------- MODULE Calls -------------------------------
(* Public calls as records (the same records occur in recorded sessions, Trace.tla, and in the
   histories that TLC generates, Hist.tla), and which of them make sense in a state. *)
EXTENDS Game

Set(s) == Range(s)
\* sequence of pairs <<key, value>> -> function
Fn(s) == [x \in {p[1] : p \in Range(s)} |-> (CHOOSE p \in Range(s) : p[1] = x)[2]]
Pairs(s) == {<<p[1], p[2]>> : p \in Range(s)}

Structure(e) == [EmptyModel EXCEPT !.N = Set(e.n), !.E = Pairs(e.e), !.dec = Fn(e.dec), !.util = Fn(e.util)]
\* the model after call e on model m, given that the call does what it should
Call(m, e) ==
  CASE e.op = "build" -> SetRels(Structure(e), e.rels)
    [] e.op = "set" -> SetRel(m, e.v, e.r)
    [] e.op = "setm" -> SetRels(m, e.prs)
    [] e.op = "del" -> RemoveRel(m, e.v)
    [] e.op = "addnode" -> AddNode(m, e.v)
    [] e.op = "rmnode" -> RemoveNode(m, e.v)
    [] e.op = "addedge" -> AddEdge(m, e.u, e.v)
    [] e.op = "rmedge" -> RemoveEdge(m, e.u, e.v)
    [] e.op = "mkchance" -> IF e.v \in m.N THEN MakeChance(m, e.v) ELSE m
    [] e.op = "mkdec" -> IF e.v \in m.N THEN MakeDecision(m, e.v, e.a) ELSE m
    [] e.op = "mkutil" -> IF e.v \in m.N THEN MakeUtility(m, e.v, e.a) ELSE m
    [] e.op = "impr" -> ImputeRandom(m, e.d)
    [] e.op = "impall" -> ImputeRandomAll(m, SeqOf(Decs(m)))
    [] e.op = "rmrules" -> RemoveRules(m, SeqOf(Decs(m)))
    [] e.op = "interv" -> Intervene(m, e.prs)
    [] OTHER -> m
RECURSIVE CallAll(_, _)
CallAll(m, es) == IF es = <<>> THEN m ELSE CallAll(Call(m, Head(es)), Tail(es))

-----------------------------------------------------------------------------
\* every distribution is in effect for the current parents, and every specification acceptable
Sound(m) == /\ \A v \in DOMAIN m.tab : Settled(m, v)
            /\ Consistent_(m)
\* objects and tables are made for the domains of their parents at that time
FixedKept(m, n) == \A v \in DOMAIN n.rel : (v \in DOMAIN m.rel /\ n.rel[v] = m.rel[v] /\ ~Rederived(n.rel[v])) =>
  \A p \in Pa(n.E, v) : p \in DOMAIN m.dom => n.dom[p] = m.dom[p]
Legal(m, es) == LET n == CallAll(m, es) IN Sound(n) /\ FixedKept(m, n)
(* Copies specify everything again: a copy of m is m if every specification is in effect or waits
   for a parent that has never been specified. *)
Copyable(m) == \A v \in m.N :
  IF v \notin DOMAIN m.rel THEN v \notin DOMAIN m.dom
  ELSE IF v \in DOMAIN m.tab THEN Settled(m, v)
  ELSE /\ ~Ready(m, m.rel[v], Pa(m.E, v)) /\ v \notin DOMAIN m.dom /\ Rederived(m.rel[v])
       /\ (m.rel[v].vkw \/ Range(m.rel[v].args) = Pa(m.E, v))
Full(m) == DOMAIN m.tab = m.N /\ \A v \in m.N : Settled(m, v)
=============================================================================
