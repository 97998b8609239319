------------------------------- MODULE Random -------------------------------
(* What random generators may return.  Events record the parameters and the projected result. *)
EXTENDS Judge

MinOf(a, b) == IF a < b THEN a ELSE b
\* edges that fit when no node has more than k parents
Capacity(n, k) == SumSeq([i \in 1..n |-> MinOf(i - 1, k)])
\* q.n nodes requested, density q.dn / q.dd, in-degree at most q.k; q.val = [n, e]
JRdag(q) ==
  LET N == Set(q.val.n)  E == Pairs(q.val.e) IN
  IF q.err # "" THEN {"C20:error"} ELSE
  OkIf("C20:nodes", Cardinality(N) = q.n /\ NoRepeats(q.val.n)) \cup
  OkIf("C20:acyclic", IsDag(N, E)) \cup
  OkIf("C20:connected", Connected(N, E)) \cup
  OkIf("C20:indegree", \A v \in N : Cardinality(Pa(E, v)) <= q.k) \cup
  OkIf("C20:density", Cardinality(E) >= MinOf((q.dn * q.n * (q.n - 1)) \div (2 * q.dd), Capacity(q.n, q.k)))

\* a (MA)CID for the parameters q.n, q.nd / q.nu (sequences: decisions / utilities per agent),
\* q.recall, q.cpds, q.k
DiagramOk(q, p) ==
  LET m == ModelOf(p)
      counts(owner) == [a \in 1..Len(q.nd) |-> Cardinality({v \in DOMAIN owner : owner[v] = a})]
  IN
  OkIf("C20:nodes", Cardinality(m.N) = q.n) \cup
  OkIf("C20:acyclic", IsDag(m.N, m.E)) \cup
  OkIf("C20:connected", Connected(m.N, m.E)) \cup
  OkIf("C20:indegree", \A v \in m.N : Cardinality(Pa(m.E, v)) <= q.k) \cup
  OkIf("C20:density", Cardinality(m.E) >= MinOf((q.dn * q.n * (q.n - 1)) \div (2 * q.dd), Capacity(q.n, q.k))) \cup
  OkIf("C20:roles", /\ counts(m.dec) = q.nd /\ counts(m.util) = q.nu
                    /\ RoleListOk(p.dl, m.dec) /\ RoleListOk(p.ul, m.util)
                    /\ DOMAIN m.dec \cap DOMAIN m.util = {}) \cup
  OkIf("C20:childless", \A u \in Utils(m) : Ch(m.E, u) = {}) \cup
  OkIf("C20:relevant", \A d \in Decs(m) : UtilsBelow(m, d) # {}) \cup
  OkIf("C20:recall", q.recall => SufficientRecall(m)) \cup
  OkIf("C20:cpds", q.cpds =>
     /\ {t[1] : t \in Range(p.tab)} = m.N
     /\ Set(p.un) = Decs(m)
     /\ \A t \in Range(p.tab) : NoRepeats(t[2]) /\ Range(t[2]) = Pa(m.E, t[1])
          /\ \A r \in Range(t[3]) : \A j \in 1..Len(r[2]) : r[2][j][1] >= 0 /\ r[2][j][2] >= 0)
\* requests that leave so much room that thousands of attempts cannot all fail
Easy(q) == ~q.recall /\ q.k >= 3 /\ 10 * q.dn <= 4 * q.dd /\ q.n >= 2 * SumSeq(q.nd) + 2 * SumSeq(q.nu)
JRdiagram(q) == IF q.expect # "" THEN ErrIs("C20:unsatisfiable", q, q.expect)
                ELSE IF q.err = "ValueError" /\ ~Easy(q) THEN {}
                ELSE IF q.err # "" THEN {"C20:error"} ELSE DiagramOk(q, q.val)
\* list generators: q.count diagrams, ranges <<lo, hi>> inclusive for nodes, decisions, utilities
JRlist(q) ==
  IF q.err = "ValueError" THEN {} \* some choice within the ranges may be beyond the attempts made
  ELSE IF q.err # "" THEN {"C20:error"} ELSE
  OkIf("C20:count", Len(q.val) = q.count) \cup
  UNION {LET p == q.val[i] m == ModelOf(p)
             within(x, r) == r[1] <= x /\ x <= r[2]
             D(a) == Cardinality(DecsOf(m, a))  U(a) == Cardinality(UtilsOf(m, a))
         IN OkIf("C20:range", /\ within(Cardinality(m.N), q.rn)
                              /\ \A a \in Owners(m) : within(D(a), q.rd) /\ within(U(a), q.ru)
                              /\ Owners(m) # {}) \cup
            OkIf("C20:acyclic", IsDag(m.N, m.E)) \cup
            OkIf("C20:connected", Connected(m.N, m.E)) \cup
            OkIf("C20:childless", \A u \in Utils(m) : Ch(m.E, u) = {}) \cup
            OkIf("C20:relevant", \A d \in Decs(m) : UtilsBelow(m, d) # {}) \cup
            OkIf("C20:recall", q.recall => SufficientRecall(m)) \cup
            OkIf("C20:cpds", q.cpds => {t[1] : t \in Range(p.tab)} = m.N)
         : i \in 1..Len(q.val)}

(* Random conditional distributions.  q.calls: sequence of <<distribution object, context id,
   state of the global generators before, after, sequence of <<outcome, number>>, error>>;
   q.objs: sequence of <<domain, seed id, smoothness id>>; with a negative smoothness there is
   no distribution *)
RECURSIVE NumSum(_)
NumSum(s) == IF s = <<>> THEN <<0, 0>>
             ELSE LET r == NumSum(Tail(s))  lo == Head(s)[2] + r[2]
                  IN <<Head(s)[1] + r[1] + lo \div 100000000, lo % 100000000>>
NearOne(x) == (x[1] = 1 /\ x[2] < 1000) \/ (x[1] = 0 /\ x[2] > 99999000)
JRcpd(q) ==
  IF q.err # "" THEN {"C21:error"} ELSE
  LET C == 1..Len(q.calls)
      obj(i) == q.objs[q.calls[i][1]]
      outs(i) == [j \in 1..Len(q.calls[i][5]) |-> q.calls[i][5][j][1]]
      nums(i) == [j \in 1..Len(q.calls[i][5]) |-> q.calls[i][5][j][2]]
  IN
  OkIf("C21:refused", \A i \in C : (q.calls[i][6] = "") = (obj(i)[3] >= 0)) \cup
  OkIf("C21:proper", \A i \in C : q.calls[i][6] = "" =>
                                  /\ ListIs(outs(i), Range(obj(i)[1]))
                                  /\ \A j \in 1..Len(nums(i)) : nums(i)[j][1] >= 0 /\ nums(i)[j][2] >= 0
                                  /\ NearOne(NumSum(nums(i)))) \cup
  OkIf("C21:state", \A i \in C : q.calls[i][3] = q.calls[i][4]) \cup
  \* same object or same seed (and domain and smoothness), same context: same answer
  OkIf("C21:repeatable", \A i, j \in C :
     (q.calls[i][2] = q.calls[j][2] /\ (q.calls[i][1] = q.calls[j][1] \/ (obj(i) = obj(j) /\ obj(i)[2] # -1)))
       => Range(q.calls[i][5]) = Range(q.calls[j][5]))
=============================================================================
