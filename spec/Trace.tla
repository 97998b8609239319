------------------------------- MODULE Trace -------------------------------
(* Trace validation.  Every line of the input is one session of calls made on real pycid
   objects: [sid, ev], ev a sequence of events.  The behaviour of this specification walks
   through each session, computes with the operators of Api what the models must look like
   after each event, and judges what was recorded.  For each event exactly one line
   "V|session|event|{violated clauses}" is printed. *)
EXTENDS Random, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, ms, bad
vars == <<t, l, ms, bad>>

Ev(s, k) == Traces[s].ev[k]

-----------------------------------------------------------------------------
SetAdopted(m, d, rule) == \* rule: <<d, pa, rows, dom>> as recorded
  LET t2 == ExactTab(rule[2], rule[3])
  IN [m EXCEPT !.rel = Put(@, d, [k |-> "adopted", dom |-> m.dom[d], tab |-> t2]),
               !.tab = Put(@, d, t2)]
RECURSIVE SetAllAdopted(_, _)
SetAllAdopted(m, rules) == IF rules = <<>> THEN m ELSE SetAllAdopted(SetAdopted(m, Head(rules)[1], Head(rules)), Tail(rules))
RuleOk(m, r) == ProfileOk(m, {r[1]}, <<r>>)

\* the model of instance e.i after the event, given that the call did what it should
After(m, e) ==
  CASE e.op \in {"impopt", "imppol"} ->
         IF e.err = "" /\ \A i \in 1..Len(e.rules) : RuleOk(m, e.rules[i])
         THEN SetAllAdopted(m, e.rules) ELSE m
    [] OTHER -> Call(m, e)

\* the properties a wrong state after the event speaks about
OpProps(op) ==
  CASE op = "build" -> {"C04", "C05", "C07"}
    [] op \in {"set", "setm"} -> {"C04", "C05"}
    [] op \in {"del", "addedge", "rmedge", "addnode"} -> {"C05"}
    [] op = "rmnode" -> {"C05", "C07"}
    [] op \in {"mkchance", "mkdec", "mkutil"} -> {"C07"}
    [] op \in {"impr", "impall", "rmrules", "impopt", "imppol"} -> {"C15", "C05"}
    [] op = "interv" -> {"C08"}
    [] op \in {"copy", "copybare"} -> {"C06"}
    [] OTHER -> {"C03"}

ExpectedError(m, e) ==
  CASE e.op = "set" -> IF SetError(m, e.v, e.r) # "" THEN "ValueError" ELSE ""
    [] e.op \in {"mkchance", "mkdec", "mkutil"} -> IF e.v \in m.N THEN "" ELSE "KeyError"
    [] e.op = "impr" -> IF e.d \in DOMAIN m.dom THEN "" ELSE "ValueError"
    [] OTHER -> ""

\* clauses about the outcome of a mutating call
OutcomeClauses(m, e) ==
  IF e.op = "impopt" THEN
     LET U == UtilsBelow(m, e.d)
         mr == ImputeRandom(m, e.d)
     IN IF Guarded(mr, U, Fam(m, e.d), {}) \/ (e.err = "ValueError" /\ Separate(m, U, {})) THEN {}
        ELSE IF e.err # "" THEN {"C15:error"}
        ELSE OkIf("C15:rule", Len(e.rules) = 1 /\ RuleOk(m, e.rules[1]) /\ e.rules[1][1] = e.d
                  /\ OptimalRule(mr, e.d, ExactTab(e.rules[1][2], e.rules[1][3])))
  ELSE IF e.op = "imppol" THEN
     IF e.err = "ValueError" /\ Separate(m, Utils(m), {}) THEN {}
     ELSE IF e.err # "" THEN {"C15:error"}
     ELSE OkIf("C15:policy", ProfileOk(m, Decs(m), e.rules)
               /\ BestResponse(m, TabsOf(e.rules), Decs(m), Utils(m)))
  ELSE IF e.op = "impcond" THEN
     \* rules: <<context, recorded expectation>> for each context
     LET mf == m
         W == Joint(FreeModel(m, {e.d}))
         P == Pa(m.E, e.d)
         PV == Asgs(P, m.dom)
     IN IF e.y \notin P /\ (Guarded(m, {e.y}, P, {}) \/ \E pv \in PV : Given_(W, pv) = {}) THEN {}
        ELSE IF e.err # "" THEN {"C15:error"}
        ELSE OkIf("C15:conditional",
             /\ Len(e.rows) = Cardinality(PV)
             /\ \A i \in 1..Len(e.rows) :
                  LET pv == SamePv(e.pa, e.rows[i][1]) IN
                  /\ pv \in PV
                  /\ Near(IF e.y \in P THEN RInt(pv[e.y]) ELSE Expectation(W, e.y, pv), e.rows[i][2]))
  ELSE LET x == ExpectedError(m, e) IN
       IF e.err = x THEN {} ELSE {p \o ":error" : p \in OpProps(e.op)}

NoModel == EmptyModel
AskClauses(m, e) == UNION {{c \o "#" \o ToString(k) : c \in J(m, e.qs[k])} : k \in 1..Len(e.qs)}
FreeClauses(e) ==
  CASE e.op = "rdag" -> JRdag(e)
    [] e.op = "rdiagram" -> JRdiagram(e)
    [] e.op = "rlist" -> JRlist(e)
    [] e.op = "rcpd" -> JRcpd(e)

Mutating(op) == op \in {"build", "set", "setm", "del", "addnode", "rmnode", "addedge", "rmedge", "mkchance", "mkdec",
                        "mkutil", "impr", "impall", "rmrules", "interv", "impopt", "imppol"}
\* projections recorded with the event, as a function instance -> projection
Projs(e) == [k \in {p[1] : p \in Range(e.ps)} |-> (CHOOSE p \in Range(e.ps) : p[1] = k)[2]]

Consume ==
  LET e == Ev(t, l) IN
  CASE e.op \in {"rdag", "rdiagram", "rlist", "rcpd"} ->
         /\ PrintT("V|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o ToString(FreeClauses(e)))
         /\ UNCHANGED <<ms, bad>>
    [] OTHER ->
       LET m == IF e.op = "build" THEN NoModel ELSE ms[e.i]
           out == IF e.op = "ask" THEN AskClauses(m, e) ELSE OutcomeClauses(m, e)
           ms1 == IF Mutating(e.op) THEN Put(ms, e.i, After(m, e))
                  ELSE IF e.op = "copy" THEN Put(ms, e.j, CopyModel(m))
                  ELSE IF e.op = "copybare" THEN Put(ms, e.j, Bare(m))
                  ELSE ms
           pj == Projs(e)
           \* after a rejected specification the model is only compared once it is repaired
           skip == e.op = "impcond" \/ (e.op \in {"impopt", "imppol"} /\ e.err # "") \/ (e.op \in {"set"} /\ ExpectedError(m, e) # "")
           diff == [k \in DOMAIN ms1 |->
                      IF skip THEN {}
                      ELSE IF k \in DOMAIN pj THEN Differences(ms1[k], pj[k]) ELSE {}]
           old(k) == IF k \in DOMAIN bad /\ ~(Mutating(e.op) /\ k = e.i /\ e.op = "build") THEN bad[k] ELSE {}
           main == IF e.op \in {"copy", "copybare"} THEN e.j ELSE e.i
           state == UNION {LET new == diff[k] \ old(k) IN
                       IF e.op \in {"ask", "draw"} THEN (IF k \in DOMAIN pj THEN {"C03:changed"} ELSE {})
                       ELSE IF k = main THEN {p \o ":state-" \o f : p \in OpProps(e.op), f \in new}
                       ELSE IF new # {} \/ (k \in DOMAIN pj /\ k # main) THEN {"C06:shared"} ELSE {}
                     : k \in DOMAIN ms1}
           \* lists, sets and dictionaries given to the call
           args == IF "args" \in DOMAIN e THEN {IF e.op = "ask" THEN "C03:args" ELSE "C06:args"} ELSE {}
       IN /\ PrintT("V|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o ToString(out \cup args \cup (IF skip THEN {} ELSE state)))
          /\ ms' = ms1
          /\ bad' = [k \in DOMAIN ms1 |-> old(k) \cup diff[k]]

Init == t \in 1..Len(Traces) /\ l = 1 /\ ms = EmptyFn /\ bad = EmptyFn
Next == /\ l <= Len(Traces[t].ev)
        /\ Consume
        /\ l' = l + 1
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
