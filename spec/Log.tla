-------------------------------- MODULE Log --------------------------------
(* Decoding what the harness recorded from the real code. *)
EXTENDS Calls, Reason

NoRepeats(s) == Cardinality(Range(s)) = Len(s)

(* Recorded numbers: <<hi, lo>> stands for hi + lo / 10^8 with 0 <= lo < 10^8; <<0, -1>> is not
   a number. *)
RECURSIVE Digits(_, _, _, _)
Digits(r, d, k, acc) == IF k = 0 THEN acc
                        ELSE Digits((r * 10) % d, d, k - 1, acc * 10 + (r * 10) \div d)
Near(q, x) ==
  IF IsNaN(q) THEN x = <<0, -1>>
  ELSE /\ x[2] >= 0
       /\ LET hi == q[1] \div q[2]  lo == Digits(q[1] % q[2], q[2], 8, 0)
          IN \/ hi = x[1] /\ Abs(lo - x[2]) <= 5
             \/ hi = x[1] + 1 /\ lo < 5 /\ x[2] > 99999995
             \/ hi = x[1] - 1 /\ x[2] < 5 /\ lo > 99999995
NumZero(x) == Near(RZero, x)
NumNeg(x) == x[1] < 0 /\ ~NumZero(x)

(* Recorded tables: sequence of <<context values (in the order of pa), numbers in the order of
   the domain>> *)
SamePv(pa, vals) == [x \in Range(pa) |-> vals[Pos(pa, x)]]
TableNear(t, D, pa, rows, P, dom) ==
  /\ NoRepeats(pa) /\ Range(pa) = t.pa /\ t.pa = P
  /\ Len(rows) = Cardinality(DOMAIN t.rows)
  /\ \A i \in 1..Len(rows) :
       LET pv == SamePv(pa, rows[i][1]) IN
       /\ pv \in DOMAIN t.rows
       /\ Len(rows[i][2]) = Len(D)
       /\ \A j \in 1..Len(D) : Near(t.rows[pv][j], rows[i][2][j])
  /\ \A i, j \in 1..Len(rows) : i # j => rows[i][1] # rows[j][1]

(* Recorded exact tables (rationals): rules chosen by a solver *)
ExactTab(pa, rows) == [pa |-> Range(pa),
  rows |-> [pv \in {SamePv(pa, r[1]) : r \in Range(rows)} |->
              (CHOOSE r \in Range(rows) : SamePv(pa, r[1]) = pv)[2]]]

(* Projection of a real model:
     n nodes, e edges, dl / ul per-agent role lists, da / ua node owners, ag agents,
     ks nodes with a specification, un nodes whose distribution is an open decision domain,
     dom domains, tab distributions <<node, pa, rows>> *)
ModelOf(p) == [N |-> Set(p.n), E |-> Pairs(p.e), dec |-> Fn(p.da), util |-> Fn(p.ua)]
RoleListOk(lists, owner) ==
  /\ NoRepeats(lists)
  /\ \A i \in 1..Len(lists) : NoRepeats(lists[i][2])
  /\ \A i, j \in 1..Len(lists) : i # j => lists[i][1] # lists[j][1]
  /\ \A x \in DOMAIN owner : \E i \in 1..Len(lists) : lists[i][1] = owner[x] /\ x \in Range(lists[i][2])
  /\ \A i \in 1..Len(lists) : \A x \in Range(lists[i][2]) : x \in DOMAIN owner /\ owner[x] = lists[i][1]

Open(m) == {v \in DOMAIN m.tab : v \in DOMAIN m.rel /\ m.rel[v].k = "dec"}
\* the fields of projection p that disagree with model m
Differences(m, p) ==
  (IF Set(p.n) = m.N /\ NoRepeats(p.n) THEN {} ELSE {"nodes"}) \cup
  (IF Pairs(p.e) = m.E /\ NoRepeats(p.e) THEN {} ELSE {"edges"}) \cup
  (IF /\ Fn(p.da) = m.dec /\ Fn(p.ua) = m.util
      /\ NoRepeats(p.da) /\ NoRepeats(p.ua)
      /\ RoleListOk(p.dl, m.dec) /\ RoleListOk(p.ul, m.util)
      /\ Owners(m) \subseteq Set(p.ag)
      /\ DOMAIN m.dec \cap DOMAIN m.util = {} THEN {} ELSE {"roles"}) \cup
  (IF Set(p.ks) = DOMAIN m.rel THEN {} ELSE {"keys"}) \cup
  (IF Set(p.un) = Open(m) THEN {} ELSE {"open"}) \cup
  (IF \A v \in DOMAIN m.tab : \E i \in 1..Len(p.dom) : p.dom[i] = <<v, m.dom[v]>> THEN {} ELSE {"dom"}) \cup
  (IF /\ {t[1] : t \in Range(p.tab)} = DOMAIN m.tab
      /\ Len(p.tab) = Cardinality(DOMAIN m.tab)
      /\ \A i \in 1..Len(p.tab) : LET v == p.tab[i][1] IN
           TableNear(m.tab[v], m.dom[v], p.tab[i][2], p.tab[i][3], m.tab[v].pa, m.dom)
   THEN {} ELSE {"tab"})
=============================================================================
