-------------------------------- MODULE Hist --------------------------------
(* Histories of calls for the conformance checks, drawn by TLC (simulation mode) from the calls
   that make sense in the current state: models are built up node by node, specified, rewired,
   intervened on, copied and asked.  Each behaviour of length Steps is printed as one line
   "H|kind|<the calls as JSON>"; the harness replays them on pycid and Trace.tla judges what happened. *)
EXTENDS Calls, Json, IOUtils
CONSTANTS MaxN, Steps, MaxModels, Kinds, Ks
VARIABLES ms, h, kind
vars == <<ms, h, kind>>

R(S) == RandomElement(S)
Chance(pct) == R(1..100) <= pct

Nodes == 1..MaxN
Perm(S) == R({s \in [1..Cardinality(S) -> S] : Range(s) = S})
\* a distribution over n outcomes as numerators over den; the last may be left open
Dists == << <<<<1>>>>, <<<<1, 3>>, <<2, 2>>, <<0, 4>>, <<4, 0>>, <<3, 1>>>>,
            <<<<1, 1, 2>>, <<2, 2, 0>>, <<0, 0, 4>>, <<2, 1, 1>>>> >>
Domains == {<<0>>, <<0, 1>>, <<0, 2>>, <<1, 3>>, <<0, 1, 2>>}
RandDist(D) ==
  LET n == Len(D)  ws == R(Range(Dists[n]))  open == n > 1 /\ Chance(30)
      full == [i \in 1..n |-> IF n = 1 THEN <<D[1], 1, 1>> ELSE <<D[i], ws[i], 4>>]
  IN IF open THEN [full EXCEPT ![R(1..n)] = <<@[1], 0, 0>>] ELSE full
RandConst(v) == LET D == R(Domains) IN ConstRel(<<>>, RandDist(D))
RandFun(P) ==
  LET k == Cardinality(P)
      mod == R({2, 3})
      point == <<<<0, 1, 1>>>>
      spread == R({<<<<0, 1, 2>>, <<1, 1, 2>>>>, <<<<0, 1, 4>>, <<1, 3, 4>>>>, <<<<1, 1, 1>>>>, <<<<0, 1, 4>>, <<1, 0, 0>>>>})
  IN [k |-> "fun", args |-> Perm(P), coef |-> [i \in 1..k |-> R({1, -1, 2})], base |-> R(0..2), mod |-> mod,
      dss |-> R({<<point>>, <<spread>>, <<point, spread>>}), vkw |-> FALSE,
      dom |-> <<>>]
RandSpec(m, v) == LET P == Pa(m.E, v) IN
  IF v \in Decs(m) /\ Chance(60) THEN DecRel(R({<<0, 1>>, <<1, 0>>, <<0, 1, 2>>, <<2, 0, 1>>}))
  ELSE IF P # {} /\ Chance(75) THEN RandFun(P) ELSE RandConst(v)

RandAgent == IF kind = "cid" THEN 1 ELSE R(1..3)
Small(m) == \A v \in DOMAIN m.dom : Len(m.dom[v]) <= 4
\* a random suggestion <<instance, calls>>; most are legal
Pick(k) ==
  LET i == R(DOMAIN ms)  m == ms[i]
      v == R(m.N)
      es(s) == [j \in 1..Len(s) |-> s[j] @@ ("i" :> i)]
      respec(n, x) == [op |-> "set", v |-> x, r |-> RandSpec(n, x)]
      Us == {<<u, w>> \in m.N \X m.N : u < w}
  IN CASE k = 1 -> es(<<respec(m, v)>>)
       [] k \in {2, 14} -> LET e == R(IF Us \ m.E = {} THEN {<<v, v>>} ELSE Us \ m.E)
                       add == [op |-> "addedge", u |-> e[1], v |-> e[2]]
                   IN IF Us \ m.E = {} THEN <<>>
                      ELSE es(IF Chance(25) THEN <<add>> ELSE <<add, respec(Call(m, add), e[2])>>)
       [] k = 3 -> IF m.E = {} THEN <<>>
                   ELSE LET e == R(m.E)  rem == [op |-> "rmedge", u |-> e[1], v |-> e[2]]
                        IN es(IF Chance(40) THEN <<rem>> ELSE <<rem, respec(Call(m, rem), e[2])>>)
       [] k = 4 -> IF v \notin DOMAIN m.rel THEN <<>>
                   ELSE es(<<[op |-> "del", v |-> v]>> \o (IF Chance(60) THEN <<respec(m, v)>> ELSE <<>>))
       [] k = 5 -> IF kind = "cbn" THEN <<>>
                   ELSE es(<<IF Chance(30) THEN [op |-> "mkchance", v |-> v]
                             ELSE [op |-> R({"mkdec", "mkutil"}), v |-> v, a |-> RandAgent]>>)
       [] k = 6 -> IF ~Full(m) THEN <<>>
                   ELSE es(<<[op |-> "interv", prs |-> <<<<v, R(Range(m.dom[v]))>>>>]>>)
       [] k = 7 -> IF ~Copyable(m) \/ Cardinality(DOMAIN ms) = MaxModels THEN <<>>
                   ELSE es(<<[op |-> "copy", j |-> Cardinality(DOMAIN ms) + 1]>>)
       [] k = 8 -> IF Decs(m) = {} \/ ~(Decs(m) \subseteq DOMAIN m.dom) \/ ~(\A d \in Decs(m) : Pa(m.E, d) \subseteq DOMAIN m.dom) THEN <<>>
                   ELSE IF Chance(50) THEN es(<<[op |-> "impr", d |-> R(Decs(m))]>>)
                   ELSE es(<<[op |-> R({"impall", "rmrules"})]>>)
       [] k = 9 -> IF ~Full(m) THEN <<>>
                   ELSE LET x == R(m.N)  c == R(m.N)  w == R(m.N)
                            iv == IF Chance(40) THEN <<<<w, R(Range(m.dom[w]))>>>> ELSE <<>>
                            ct == IF c # x /\ Chance(60) THEN <<<<c, R(Range(m.dom[c]))>>>> ELSE <<>>
                        IN es(<<[op |-> "ask", qs |-> <<[f |-> "query", q |-> <<x>>, c |-> ct, iv |-> iv]>>]>>)
       [] k = 10 -> IF m.N = Nodes THEN <<>> ELSE es(<<[op |-> "addnode", v |-> R(Nodes \ m.N)]>>)
       [] k = 15 -> IF Cardinality(m.N) = 1 THEN <<>>
                    ELSE LET old == {c \in Ch(m.E, v) : c \in DOMAIN m.rel /\ ~ConstKind(m.rel[c])}
                             dels == LET q == SeqOf(old) IN [j \in 1..Len(q) |-> [op |-> "del", v |-> q[j]]]
                         IN es(dels \o <<[op |-> "rmnode", v |-> v]>>)
       [] k \in 11..13 -> LET todo == {x \in m.N : x \notin DOMAIN m.rel}
                   IN IF todo = {} THEN <<>> ELSE LET x == R(todo) IN es(<<respec(m, x)>>)
Suggest == {s \in {Pick(k) : k \in Ks} :
              /\ s # <<>>
              /\ LET n == CallAll(ms[s[1].i], s) IN Legal(ms[s[1].i], s) /\ Small(n)
                   /\ (n = ms[s[1].i] => s[1].op \in {"ask", "copy"})}
Init == /\ kind \in Kinds
        /\ \E n \in {1, 3, 3, MaxN}, d \in 0..1 :
             LET e == [op |-> "build", i |-> 1, kind |-> kind, n |-> [x \in 1..n |-> x], e |-> <<>>,
                       dec |-> IF kind # "cbn" /\ d = 1 THEN <<<<n, 1>>>> ELSE <<>>, util |-> <<>>, rels |-> <<>>,
                       how |-> "inc", batch |-> FALSE, scribble |-> FALSE]
             IN h = <<e>> /\ ms = (1 :> Call(EmptyModel, e))
Next == LET S == Suggest IN
  IF Len(h) > Steps THEN UNCHANGED vars
  ELSE IF S = {} THEN UNCHANGED vars
  ELSE \E s \in S : LET i == s[1].i IN
    /\ ms' = IF s[1].op = "copy" THEN Put(ms, s[1].j, CopyModel(ms[i])) ELSE Put(ms, i, CallAll(ms[i], s))
    /\ h' = h \o s
    /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
\* (also printed for the successors TLC did not choose; the harness keeps one per behaviour)
Emit == TLCGet("level") = Steps => PrintT("H|" \o kind \o "|" \o ToJson(h))
=============================================================================
