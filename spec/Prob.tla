-------------------------------- MODULE Prob --------------------------------
(* Parameterised diagrams.  On top of the fields of a diagram (Influence.tla) a model m has
     dom   function: node -> sequence of its outcomes (integers; the harness maps real outcomes
           to integers by an order-preserving code)
     tab   function: node -> [pa |-> set of parents,
                              rows |-> function from assignments of pa to sequences of
                                       probabilities aligned with dom[node]]
   An assignment of a set S of nodes is a function S -> outcomes. *)
EXTENDS Influence

RECURSIVE Asgs(_, _)
Asgs(S, dom) == IF S = {} THEN {<<>>}
                ELSE LET x == CHOOSE x \in S : \A y \in S : y <= x
                     IN {f @@ (x :> o) : f \in Asgs(S \ {x}, dom), o \in Range(dom[x])}

-----------------------------------------------------------------------------
(* Specifications ("relationships").  All kinds except tables are one record shape:
     k     "const" (a dictionary), "fun" (a function of the parents), "obj" (an explicit function
           CPD object, possibly with a domain), "dec" (a decision domain), "unif" (a uniform rule)
     args  the parents the function names; coef, base, mod: its value is
           base + SUM coef[i] * parent[args[i]], modulo mod if mod > 0
     dss   sequence of distributions; parent assignments with coefficient sum s use number
           1 + (s mod Len(dss)).  A distribution is a sequence of <<delta, n, d>>: outcome
           (value + delta, modulo mod if mod > 0) has probability n/d; d = 0: None
     vkw   TRUE iff the function accepts arbitrary keyword arguments
     dom   explicit domain, or <<>>
   Tables: k = "tab", dom, pa (sequence), padom (sequence of domains), cols (one column per
   parent assignment, last parent varying fastest). *)
IsTab(r) == r.k = "tab"
\* rules found by a solver: k = "adopted", dom, tab
IsAdopted(r) == r.k = "adopted"
LinSum(r, pv) == SumSeq([i \in 1..Len(r.args) |-> r.coef[i] * pv[r.args[i]]])
DsAt(r, pv) == IF r.dss = <<>> THEN <<>> ELSE r.dss[1 + (LinSum(r, pv) % Len(r.dss))]
Wrap(r, x) == IF r.mod > 0 THEN x % r.mod ELSE x
KeyAt(r, pv, i) == Wrap(r, r.base + LinSum(r, pv) + DsAt(r, pv)[i][1])
Keys(r, pv) == {KeyAt(r, pv, i) : i \in 1..Len(DsAt(r, pv))}

\* possible outcomes over all parent assignments
PossibleOutcomes(r, PV) == UNION {Keys(r, pv) : pv \in PV}
DomainOf(r, PV) == IF IsTab(r) \/ IsAdopted(r) \/ r.dom # <<>> THEN r.dom ELSE SortSet(PossibleOutcomes(r, PV))

\* the completed distribution as a sequence aligned with domain D
DistOf(r, D, pv) ==
  LET ds == DsAt(r, pv)
      given == {i \in 1..Len(ds) : ds[i][3] # 0}
      key == [i \in given |-> KeyAt(r, pv, i)]
      keyed == Range(key)
      missing == Cardinality(Range(D) \ keyed)
      mass == RSub(ROne, RSumOver([i \in given |-> Rat(ds[i][2], ds[i][3])], given))
  IN [j \in 1..Len(D) |->
        IF D[j] \in keyed
        THEN LET i == CHOOSE i \in given : key[i] = D[j] IN Rat(ds[i][2], ds[i][3])
        ELSE RDivI(mass, missing)]

\* table column of parent assignment pv (by outcome, whatever order the columns are stored in)
RECURSIVE ColIndex(_, _, _)
ColIndex(r, pv, n) == IF n = 0 THEN 0
                      ELSE ColIndex(r, pv, n - 1) * Len(r.padom[n]) + (Pos(r.padom[n], pv[r.pa[n]]) - 1)
TabCol(r, pv) == LET c == r.cols[1 + ColIndex(r, pv, Len(r.pa))]
                 IN [j \in 1..Len(c) |-> Rat(c[j][1], c[j][2])]

\* why a specification of v with parents P (with domains dom) is not acceptable; "" if it is
SpecError(r, P, dom) ==
  IF IsAdopted(r) THEN "" ELSE
  IF IsTab(r) THEN (IF Range(r.pa) # P THEN "parents" ELSE "")
  ELSE IF ~r.vkw /\ Range(r.args) # P THEN "parents"
  ELSE LET PV == Asgs(P, dom)
           D == DomainOf(r, PV)
       IN IF ~(PossibleOutcomes(r, PV) \subseteq Range(D)) THEN "domain"
          ELSE IF \E pv \in PV : LET s == DistOf(r, D, pv)
                                     t == RSumSeq(s)
                                 IN \/ \E j \in 1..Len(s) : s[j][1] < 0 \/ RLess(ROne, s[j])
                                    \/ RLess(t, Rat(99, 100)) \/ RLess(Rat(101, 100), t)
               THEN "probabilities"
          ELSE ""
TableOf(r, P, D, dom) ==
  IF IsAdopted(r) THEN r.tab
  ELSE IF IsTab(r) THEN [pa |-> P, rows |-> [pv \in Asgs(P, [p \in P |-> r.padom[Pos(r.pa, p)]]) |-> TabCol(r, pv)]]
  ELSE [pa |-> P, rows |-> [pv \in Asgs(P, dom) |-> DistOf(r, D, pv)]]

PointMass(D, o) == [pa |-> {}, rows |-> (<<>> :> [j \in 1..Len(D) |-> IF D[j] = o THEN ROne ELSE RZero])]

-----------------------------------------------------------------------------
(* Joint distribution: a set of pairs <<assignment of all nodes, integer weight>>; the weights
   are proportional to the probabilities (common denominator per node). *)
DenOf(t) == FoldSet(LAMBDA x, acc : Lcm(x, acc), 1, {r[2] : r \in UNION {Range(t.rows[pv]) : pv \in DOMAIN t.rows}})
RECURSIVE Expand(_, _, _)
Expand(m, order, W) ==
  IF order = <<>> THEN W
  ELSE LET v == Head(order)
           t == m.tab[v]
           den == DenOf(t)
           D == m.dom[v]
           nxt == {q \in W \X (1..Len(D)) : t.rows[Restrict(q[1][1], t.pa)][q[2]][1] # 0}
       IN Expand(m, Tail(order),
            {LET p == t.rows[Restrict(q[1][1], t.pa)][q[2]]
             IN <<q[1][1] @@ (v :> D[q[2]]), q[1][2] * p[1] * (den \div p[2])>> : q \in nxt})
\* the joint over an ancestrally closed set S
JointOn(m, S) == Expand(m, Topo(S, m.E), {<< <<>>, 1>>})
Joint(m) == JointOn(m, m.N)

\* iv: function from intervened nodes to outcomes
DoModel(m, iv) ==
  LET X == DOMAIN iv IN
  [m EXCEPT !.E = {e \in @ : e[2] \notin X},
            !.tab = [v \in DOMAIN @ |-> IF v \in X THEN PointMass(m.dom[v], iv[v]) ELSE @[v]]]

Consistent(f, c) == \A x \in DOMAIN c : f[x] = c[x]
Weight(W) == MapThenSumSet(LAMBDA p : p[2], W)
Given_(W, c) == {p \in W : Consistent(p[1], c)}
\* all probabilities of assignments of Q given c:  a function; NaN if c has probability 0
Conditional(W, Q, c, dom) ==
  LET Wc == Given_(W, c)  tot == Weight(Wc)
  IN [a \in Asgs(Q, dom) |-> Rat(Weight(Given_(Wc, a)), tot)]
\* expectation of v given c, in codes
Expectation(W, v, c) ==
  LET Wc == Given_(W, c)  tot == Weight(Wc)
  IN Rat(MapThenSumSet(LAMBDA p : p[2] * p[1][v], Wc), tot)
\* expected sum of a set of nodes
ExpectedSum(W, U, c) ==
  LET Wc == Given_(W, c)  tot == Weight(Wc)
  IN Rat(MapThenSumSet(LAMBDA p : p[2] * MapThenSumSet(LAMBDA u : p[1][u], U), Wc), tot)
=============================================================================
