------------------------------- MODULE Judge -------------------------------
(* What the specification says about the answer to every question.  A question q is a record
   with f (which function was called), its arguments, err ("" or the exception class) and, when
   there was none, val.  J(m, q) is the set of property clauses the recorded answer violates. *)
EXTENDS Log

Ans(id, q, ok) == IF q.err = "" /\ ok THEN {} ELSE {id}
ErrIs(id, q, e) == IF q.err = e THEN {} ELSE {id}
OkIf(id, ok) == IF ok THEN {} ELSE {id}

UnruledDecs(m) == {d \in Decs(m) : Unruled(m, d)}
\* some decision without a rule matters for Q given Z once the edges into X are gone
Guarded(m, Q, Z, X) ==
  LET E2 == {e \in m.E : e[2] \notin X}
  IN \E d \in UnruledDecs(m) : Q \cap MechReach(E2, d, Z \cup X) # {}
Separate(m, Q, X) == LET E2 == {e \in m.E : e[2] \notin X} IN \E x, y \in Q : y \notin Component(E2, x)
OutOfDomain(m, c) == \E x \in DOMAIN c : c[x] \notin Range(m.dom[x])

\* judge a question about the distribution of Q given c, do(iv); val(W) says whether the answer
\* agrees with the worlds W
JDist(id, m, q, Q, c, iv, val(_)) ==
  IF OutOfDomain(m, c) THEN ErrIs("C01:context", q, "ValueError")
  ELSE IF Guarded(m, Q, DOMAIN c, DOMAIN iv) THEN ErrIs("C09:guard", q, "ValueError")
  ELSE LET m2 == DoModel(m, iv)
           W == JointOn(m2, AncOfSet(m2.E, Q \cup DOMAIN c))
       IN IF Given_(W, c) = {} THEN {}
          ELSE IF q.err = "ValueError" /\ Separate(m, Q, DOMAIN iv) THEN {}
          ELSE IF q.err = "ValueError" /\ UnruledDecs(m) # {} THEN {"C09:refused"}
          ELSE IF q.err # "" THEN {id \o ":refused"}
          ELSE IF val(W) THEN {} ELSE {id \o ":value"}

JQuery(m, q) ==
  LET Q == Set(q.q)  c == Fn(q.c)  iv == Fn(q.iv)
      val(W) == LET p == Conditional(W, Q, c, m.dom) IN
        /\ Len(q.val) = Cardinality(DOMAIN p)
        /\ \A i \in 1..Len(q.val) : LET a == SamePv(q.q, q.val[i][1]) IN
             a \in DOMAIN p /\ Near(p[a], q.val[i][2])
        /\ \A i, j \in 1..Len(q.val) : i # j => q.val[i][1] # q.val[j][1]
  IN JDist("C01", m, q, Q, c, iv, val)

JEv(m, q) ==
  IF q.vs = <<>> THEN Ans("C02:value", q, q.val = <<>>)
  ELSE LET c == Fn(q.c)  iv == Fn(q.iv)
           val(W) == Len(q.val) = Len(q.vs) /\ \A i \in 1..Len(q.vs) : Near(Expectation(W, q.vs[i], c), q.val[i])
       IN JDist("C02", m, q, Set(q.vs), c, iv, val)

JEu(m, q) ==
  LET U == UtilsOf(m, q.a)  c == Fn(q.c)  iv == Fn(q.iv)
      val(W) == Near(ExpectedSum(W, U, c), q.val)
  IN IF U = {} THEN Ans("C02:value", q, NumZero(q.val))
     ELSE JDist("C02", m, q, U, c, iv, val)

EffectOn(m, x, a, a0, a1) ==
  LET e(o) == LET m2 == DoModel(m, a :> o) IN Expectation(JointOn(m2, AncOfSet(m2.E, {x})), x, EmptyFn)
  IN RSub(e(a1), e(a0))
JTe(m, q) ==
  IF Guarded(m, {q.x}, {}, {q.a}) THEN ErrIs("C09:guard", q, "ValueError")
  ELSE Ans("C02:effect", q, Near(EffectOn(m, q.x, q.a, q.a0, q.a1), q.val))
JIte(m, q) ==
  IF Guarded(m, {q.d}, {}, {q.a}) \/ Guarded(m, {q.y}, {}, {q.a}) THEN ErrIs("C09:guard", q, "ValueError")
  ELSE LET td == EffectOn(m, q.d, q.a, q.a0, q.a1)  ty == EffectOn(m, q.y, q.a, q.a0, q.a1)
           s == IF ty[1] < 0 /\ q.adapt THEN -1 ELSE 1
       IN Ans("C02:introduced", q, Near(RSub(RMul(RInt(s), td), RMul(RInt(s), ty)), q.val))

-----------------------------------------------------------------------------
(* graph questions *)
Missing(m, S) == ~(S \subseteq m.N)
\* answer ok, or KeyError when some node of S is unknown
Known(id, m, S, q, ok) == IF Missing(m, S) THEN ErrIs(id \o ":unknown", q, "KeyError") ELSE Ans(id, q, ok)

ListIs(l, S) == NoRepeats(l) /\ Range(l) = S
JDirPaths(m, q) == IF Missing(m, {q.s, q.t}) THEN ErrIs("C10:unknown", q, "KeyError")
                   ELSE Ans("C10:dirpaths", q, ListIs(q.val, DirPaths(m.E, q.s, q.t)))
JUndirPaths(m, q) == IF Missing(m, {q.s, q.t}) THEN ErrIs("C10:unknown", q, "KeyError")
                     ELSE Ans("C10:undirpaths", q, ListIs(q.val, UndirPaths(m.E, q.s, q.t)))
JMotifs(m, q) == IF Missing(m, Set(q.p)) THEN ErrIs("C10:unknown", q, "KeyError")
                 ELSE Ans("C10:motifs", q, q.val = Motifs(m.E, q.p))
JActive(m, q) == IF Missing(m, Set(q.p) \cup Set(q.z)) THEN ErrIs("C10:unknown", q, "KeyError")
                 ELSE Ans("C10:active", q, q.val = ActivePath(m.E, q.p, Set(q.z)))
JFindActive(m, q) ==
  LET Z == Set(q.z) IN
  IF Missing(m, {q.s, q.t} \cup Z) THEN ErrIs("C10:unknown", q, "KeyError")
  ELSE IF ~DConn(m.E, q.s, q.t, Z) THEN ErrIs("C10:findactive", q, "ValueError")
  ELSE Ans("C10:findactive", q,
           /\ Len(q.val) > 0 /\ q.val[1] = q.s /\ q.val[Len(q.val)] = q.t
           /\ IsPath(m.E, q.val) /\ ActivePath(m.E, q.val, Z))
JBackdoor(m, q) == IF Missing(m, {q.s, q.t} \cup Set(q.z)) THEN ErrIs("C10:unknown", q, "KeyError")
                   ELSE Ans("C10:backdoor", q, q.val = BackdoorTrail(m.E, q.s, q.t, Set(q.z)))
JFrontdoor(m, q) == IF Missing(m, {q.s, q.t} \cup Set(q.z)) THEN ErrIs("C10:unknown", q, "KeyError")
                    ELSE Ans("C10:frontdoor", q, q.val = IndirectFrontdoorTrail(m.E, q.s, q.t, Set(q.z)))
JDecFree(m, q) == IF Missing(m, {q.s, q.t}) THEN ErrIs("C10:unknown", q, "KeyError")
                  ELSE Ans("C10:decfree", q, q.val = DecisionFreeDirPath(m.E, Decs(m), q.s, q.t))
\* all nodes d-connected to s
JTrail(m, q) == Ans("C10:dconn", q, ListIs(q.val, Reach(m.E, q.s, Set(q.z))))
JDconn(m, q) == Ans("C10:dconn", q, q.val = DConn(m.E, q.s, q.t, Set(q.z)))

JRreach(m, q) == Ans("C11:rreach", q, q.val = RReachableSets(m, Set(q.ds), Set(q.vs)))
JRelGraph(m, q) == LET D == IF q.all THEN Decs(m) ELSE Set(q.ds) IN
  Ans("C11:relgraph", q, ListIs(q.val.n, D) /\ Pairs(q.val.e) = RelevanceEdges(m, D)
                         /\ q.val.acyclic = Acyclic(D, RelevanceEdges(m, D)))
\* the mechanism graph: every node n gets a further parent, its mechanism Mec(n); a node is
\* r-reachable when its mechanism is connected to the utilities given the decision's family
Mec(n) == 50 + n
MechEdges(m) == m.E \cup {<<Mec(n), n>> : n \in m.N}
JMech(m, q) == LET R == Reach(MechEdges(m), Mec(q.s), Set(q.z)) IN Ans("C11:mech", q,
  /\ ListIs(q.val.n, m.N \cup {Mec(n) : n \in m.N})
  /\ Pairs(q.val.e) = MechEdges(m) /\ NoRepeats(q.val.e)
  /\ Fn(q.val.da) = m.dec /\ Fn(q.val.ua) = m.util
  /\ ListIs(q.val.r, R) /\ ListIs(q.val.c, R))
SetsOf(l) == {Range(l[i]) : i \in 1..Len(l)}
SetList(l, S) == SetsOf(l) = S /\ Len(l) = Cardinality(S) /\ \A i \in 1..Len(l) : NoRepeats(l[i])
JSccs(m, q) == Ans("C11:sccs", q, SetList(q.val, RelSccs(m)))
\* components ordered such that relevance edges only go forward
JSccOrder(m, q) == Ans("C11:sccorder", q,
  /\ SetList(q.val, RelSccs(m))
  /\ \A i, j \in 1..Len(q.val) : i < j =>
       ~\E x \in Range(q.val[i]), y \in Range(q.val[j]) : <<y, x>> \in RelevanceEdges(m, Decs(m)))
\* the condensed graph: its nodes are the components, its edges join related components
JSccMap(m, q) == LET l == q.val.l IN Ans("C11:sccmap", q,
  /\ q.val.n = Len(l) /\ SetList(l, RelSccs(m))
  /\ Pairs(q.val.e) = {ij \in (1..Len(l)) \X (1..Len(l)) : ij[1] # ij[2] /\
       \E x \in Range(l[ij[1]]), y \in Range(l[ij[2]]) : <<x, y>> \in RelevanceEdges(m, Decs(m))})
\* drawn colours tell the components apart
JSccDraw(m, q) == Ans("C11:sccdraw", q,
  /\ ListIs([i \in 1..Len(q.val) |-> q.val[i][1]], Decs(m))
  /\ \A i, j \in 1..Len(q.val) : (q.val[i][2] = q.val[j][2]) = (\E S \in RelSccs(m) : {q.val[i][1], q.val[j][1]} \subseteq S))
JSubgames(m, q) == Ans("C11:subgames", q, SetList(q.val, SubgameDecs(m)))
JRecall(m, q) ==
  IF q.a = 0 THEN Ans("C11:recall", q, q.val = SufficientRecall(m))
  ELSE IF q.a \notin Owners(m) THEN ErrIs("C11:recall", q, "ValueError")
  ELSE Ans("C11:recall", q, q.val = SufficientRecallOf(m, q.a))
JOrder(m, q) == LET S == IF q.all THEN Decs(m) ELSE Set(q.vs) IN
  IF Missing(m, S) THEN ErrIs("C11:order", q, "KeyError")
  ELSE Ans("C11:order", q, IsTopoOrderOf(q.val, S, m.E))

JReq(m, q) == IF q.x \notin Pa(m.E, q.d) THEN ErrIs("C12:nonparent", q, "KeyError")
              ELSE Ans("C12:requisite", q, q.val = Requisite(m, q.d, q.x))
JReqList(m, q) == Ans("C12:list", q, ListIs(q.val, RequisiteSet(m, q.d)))
JReqGraph(m, q) == Ans("C12:graph", q,
  LET h == ReqGraph(m) IN
  /\ ListIs(q.val.n, m.N) /\ Pairs(q.val.e) = h.E /\ NoRepeats(q.val.e)
  /\ Fn(q.val.da) = m.dec /\ Fn(q.val.ua) = m.util)

\* incentive questions: predicate pred, for single-agent diagrams
JInc(id, m, q, S, recall, pred) ==
  IF Cardinality(Owners(m)) > 1 THEN ErrIs("C13:" \o id, q, "ValueError")
  ELSE IF Missing(m, S) THEN ErrIs("C13:" \o id, q, "KeyError")
  ELSE IF recall /\ ~SufficientRecall(m) THEN ErrIs("C13:" \o id, q, "ValueError")
  ELSE Ans("C13:" \o id, q, q.val = pred)
JIncList(id, m, q, recall, S) ==
  IF Cardinality(Owners(m)) > 1 THEN ErrIs("C13:" \o id, q, "ValueError")
  ELSE IF recall /\ ~SufficientRecall(m) THEN ErrIs("C13:" \o id, q, "ValueError")
  ELSE Ans("C13:" \o id, q, ListIs(q.val, S))
\* without any candidate there is nothing to refuse
JVoiList(m, q) == IF DescOrSelf(m.E, q.d) = m.N /\ q.err = "" /\ q.val = <<>> THEN {}
                  ELSE JIncList("voi", m, q, TRUE, {x \in m.N : VoI(m, q.d, x)})

-----------------------------------------------------------------------------
(* quantitative value of information and control *)
JQvoi(m, q) ==
  IF q.x \notin m.N THEN ErrIs("C14:voi", q, "KeyError")
  ELSE IF q.x \in DescOrSelf(m.E, q.d) THEN ErrIs("C14:voi", q, "ValueError")
  ELSE LET mw == [m EXCEPT !.E = @ \cup {<<q.x, q.d>>}]
           mo == [m EXCEPT !.E = @ \ {<<q.x, q.d>>}]
           F == Decs(m)  U == Utils(m)
           exact == Rat(MaxValue(Values(mw, F, U)) - MaxValue(Values(mo, F, U)), TotalWeight(m, F))
       IN IF q.err = "ValueError" /\ (Separate(mw, U, {}) \/ Separate(mo, U, {})) THEN {} ELSE
          Ans("C14:voi", q, Near(exact, q.val)) \cup
          Ans("C14:negative", q, ~NumNeg(q.val)) \cup
          Ans("C14:soundness", q, (SufficientRecall(mw) /\ SufficientRecall(m) /\ ~VoI(m, q.d, q.x)) => NumZero(q.val))
JQvoc(m, q) ==
  IF q.x \notin m.N THEN ErrIs("C14:voc", q, "KeyError")
  ELSE LET F == Decs(m)  U == Utils(m)
           exact == RSub(MaxEU(m, F \cup {q.x}, U), MaxEU(m, F, U))
       IN IF q.err = "ValueError" /\ Separate(m, U, {}) THEN {} ELSE
          Ans("C14:voc", q, Near(exact, q.val)) \cup
          Ans("C14:negative", q, ~NumNeg(q.val)) \cup
          Ans("C14:soundness", q, (SufficientRecall(m) /\ ~VoC(m, q.x)) => NumZero(q.val))

-----------------------------------------------------------------------------
(* policies.  A recorded pure rule is <<d, pa, rows, dom>> with rows of <<context, action>>. *)
RuleOf(r) == [pv \in {SamePv(r[2], x[1]) : x \in Range(r[3])} |->
               (CHOOSE x \in Range(r[3]) : SamePv(r[2], x[1]) = pv)[2]]
RuleShapeOk(m, r) == /\ Range(r[2]) = Pa(m.E, r[1]) /\ NoRepeats(r[2])
                     /\ r[4] = m.dom[r[1]]
                     /\ Len(r[3]) = Cardinality(Asgs(Pa(m.E, r[1]), m.dom))
                     /\ \A i \in 1..Len(r[3]) : Len(r[3][i][1]) = Len(r[2])
JRules(m, q) == Ans("C15:rules", q,
  /\ \A i \in 1..Len(q.val) : q.val[i][1] = q.d /\ RuleShapeOk(m, q.val[i])
  /\ LET rs == [i \in 1..Len(q.val) |-> RuleOf(q.val[i])] IN ListIs(rs, PureRules(m, q.d)))

PolicyOf(l) == [d \in {r[1] : r \in Range(l)} |-> RuleOf(CHOOSE r \in Range(l) : r[1] = d)]
\* which unruled decisions optimisation of the decisions F relies on
Relies(m, F) == {e \in UnruledDecs(m) \ F : RReachableSets(m, F, {e})}
JOptPol(m, q) ==
  LET F == Set(q.ds) IN
  IF F = {} THEN Ans("C15:optimal", q, q.val = <<>>)
  ELSE IF Cardinality({m.dec[d] : d \in F}) > 1 THEN ErrIs("C15:agents", q, "ValueError")
  ELSE LET a == CHOOSE a \in {m.dec[d] : d \in F} : TRUE
           U == UtilsOf(m, a)
       IN IF Relies(m, F) # {} THEN ErrIs("C15:guard", q, "ValueError")
          ELSE IF q.err = "ValueError" /\ Separate(m, U, {}) THEN {}
          ELSE Ans("C15:optimal", q,
            /\ \A i \in 1..Len(q.val) : \A j \in 1..Len(q.val[i]) :
                 q.val[i][j][1] \in F /\ RuleShapeOk(m, q.val[i][j])
            /\ \A i \in 1..Len(q.val) : Len(q.val[i]) = Cardinality(F)
            /\ LET ps == [i \in 1..Len(q.val) |-> PolicyOf(q.val[i])]
               IN ListIs(ps, OptimalPolicies(m, F, U)))

\* q.val.l: all joint policies of the decisions q.ds; q.val.pp: every decision with 1 if one of these
\* policies, as a profile, maps it to its rule in the policy, and 0 for none
PoliciesOk(m, l, ds) ==
  /\ \A i \in 1..Len(l) : Len(l[i]) = Len(ds)
        /\ \A j \in 1..Len(l[i]) : l[i][j][1] = ds[j] /\ RuleShapeOk(m, l[i][j])
  /\ ListIs([i \in 1..Len(l) |-> PolicyOf(l[i])], PurePolicies(m, Set(ds)))
JPolicies(m, q) == Ans("C15:policies", q, PoliciesOk(m, q.val, q.ds))
JJoint(m, q) == LET F == Set(q.ds) IN Ans("C15:joint", q,
  /\ PoliciesOk(m, q.val.l, q.ds)
  /\ ListIs(q.val.pp, {<<d, IF d \in F THEN 1 ELSE 0>> : d \in Decs(m)}))

\* recorded rules with probabilities: <<d, pa, rows, dom>>, rows of <<context, rationals>>
TabsOf(l) == [d \in {r[1] : r \in Range(l)} |->
               LET r == CHOOSE r \in Range(l) : r[1] = d IN ExactTab(r[2], r[3])]
\* l gives exactly the decisions S a proper rule over their domains
ProfileOk(m, S, l) ==
  /\ NoRepeats([i \in 1..Len(l) |-> l[i][1]]) /\ {l[i][1] : i \in 1..Len(l)} = S
  /\ \A i \in 1..Len(l) : l[i][4] = m.dom[l[i][1]] /\ ProperTab(m, l[i][1], ExactTab(l[i][2], l[i][3]))
JSolve(m, q) ==
  IF q.err = "ValueError" /\ Separate(m, Utils(m), {}) THEN {}
  ELSE Ans("C15:solve", q, ProfileOk(m, Decs(m), q.val) /\ BestResponse(m, TabsOf(q.val), Decs(m), Utils(m)))

\* a rule for d that, wherever its observations are possible, only uses actions with maximal
\* conditional expected utility
OptimalRule(m, d, t) ==
  LET W == Joint(FreeModel(m, {d}))
      U == UtilsBelow(m, d)
      \* conditional expectation given context and action; weights of all actions are equal
      \* only if no descendant is conditioned on, so normalise
      eu(pv, o) == ExpectedSum(W, U, pv @@ (d :> o))
  IN \A pv \in DOMAIN t.rows :
       (Given_(W, pv) # {}) =>
       LET val == [o \in Range(m.dom[d]) |-> eu(pv, o)]
       IN \A j \in 1..Len(m.dom[d]) : t.rows[pv][j][1] > 0 =>
            \A o \in Range(m.dom[d]) : RLeq(val[o], val[m.dom[d][j]])

-----------------------------------------------------------------------------
(* equilibria: q.val is a sequence of records [x |-> TRUE iff recorded exactly, l |-> rules,
   pr |-> TRUE iff all probabilities were in [0,1] and summed to 1] *)
ShapeOk(m, S, l) ==
  /\ NoRepeats([i \in 1..Len(l) |-> l[i][1]]) /\ {l[i][1] : i \in 1..Len(l)} = S
  /\ \A i \in 1..Len(l) : l[i][4] = m.dom[l[i][1]] /\ Range(l[i][2]) = Pa(m.E, l[i][1])
JProfiles(id, m, S, q, good(_)) ==
  OkIf(id \o ":proper", \A i \in 1..Len(q.val) :
     /\ q.val[i].pr /\ ShapeOk(m, S, q.val[i].l)
     /\ q.val[i].x => ProfileOk(m, S, q.val[i].l)) \cup
  OkIf(id \o ":equilibrium", \A i \in 1..Len(q.val) :
     (q.val[i].x /\ ProfileOk(m, S, q.val[i].l)) => good(TabsOf(q.val[i].l)))
JNe(m, q) ==
  LET S == IF q.all THEN Decs(m) ELSE Set(q.ds)
      G == GameOf(m, S)
      good(T) == NashIn(m, G, S, T)
      \* the players are the owners of decisions; solvers for two players are replaced by enumpure
      \* for other numbers; the default is enummixed or enumpure
      pure == \/ q.solver \in {"", "enumpure", "enummixed"}
              \/ q.solver \in {"lcp", "lp"} /\ Cardinality(AgentsOf(m, S)) # 2
  IN IF q.solver = "nosuch" THEN (IF q.err = "ValueError" THEN {} ELSE {"C16:solver"})
     \* gambit's simplicial subdivision did not end
     ELSE IF q.err = "Unsolved" /\ q.solver \in {"", "simpdiv"} THEN {}
     ELSE IF q.err # "" /\ (~PerfectRecall(m, S) \/ Relies(m, S) # {}) THEN {}
     ELSE IF q.err # "" THEN {"C16:error"}
     ELSE JProfiles("C16", m, S, q, good) \cup
          (IF PerfectRecall(m, S) /\ q.solver = ""
           THEN OkIf("C16:existence", Len(q.val) > 0) ELSE {}) \cup
          (IF PerfectRecall(m, S) /\ pure
           THEN OkIf("C16:complete", LET rec == {TabsOf(q.val[i].l) : i \in {i \in 1..Len(q.val) : q.val[i].x /\ ProfileOk(m, S, q.val[i].l)}}
                IN \A p \in PureNashIn(m, G, S) : LET R == Required(m, G, p) IN \E T \in rec : Meets(m, T, R))
           ELSE {})
JSpe(m, q) ==
  LET S == Decs(m)
      recall == \A c \in RelSccs(m) : PerfectRecall(m, c)
      G == SubGames(m)
      good(T) == SubgamePerfectIn(m, G, T)
  IN IF q.err # "" /\ ~recall THEN {}
     ELSE IF q.err = "Unsolved" /\ q.solver \in {"", "simpdiv"} THEN {}
     ELSE IF q.err # "" THEN {"C17:error"}
     \* with rules given for other decisions, whole subgames may be unreachable
     ELSE IF UnruledDecs(m) # S THEN JProfiles("C17", m, S, q, LAMBDA T : TRUE)
     ELSE JProfiles("C17", m, S, q, good) \cup
          (IF recall /\ q.solver = "" THEN OkIf("C17:existence", Len(q.val) > 0) ELSE {}) \cup
          (IF recall
           THEN OkIf("C17:complete",
                LET rec == {TabsOf(q.val[i].l) : i \in {i \in 1..Len(q.val) : q.val[i].x /\ ProfileOk(m, S, q.val[i].l)}}
                    whole == GameOf(m, S)
                IN \A p \in PureSubgamePerfectIn(m, G) : LET R == RequiredIn(m, whole, p, RelSccs(m))
                     IN \E T \in rec : Meets(m, T, R))
           ELSE {})
JSubgame(m, q) ==
  LET A == Set(q.ds)  p == q.val  core == SubgameCore(m, A)
      tabOf(v) == CHOOSE t \in Range(p.tab) : t[1] = v
  IN Ans("C17:subgame", q,
       /\ ListIs(p.n, SubgameNodes(m, A)) /\ Pairs(p.e) = SubgameEdges(m, A) /\ NoRepeats(p.e)
       /\ Fn(p.da) = Restrict(m.dec, A)
       /\ Fn(p.ua) = Restrict(m.util, DOMAIN m.util \cap core)
       /\ \A v \in SubgameNodes(m, A) : \E i \in 1..Len(p.dom) : p.dom[i] = <<v, m.dom[v]>>
       /\ {t[1] : t \in Range(p.tab)} = SubgameNodes(m, A)
       /\ Set(p.un) = core \cap Open(m)
       /\ \A v \in core : TableNear(m.tab[v], m.dom[v], tabOf(v)[2], tabOf(v)[3], m.tab[v].pa, m.dom)
       /\ \A v \in SubgameNodes(m, A) \ core :
            LET t == tabOf(v) IN t[2] = <<>> /\ Len(t[3]) = 1 /\ Len(t[3][1][2]) = Len(m.dom[v])
              /\ \A j \in 1..Len(m.dom[v]) : t[3][1][2][j][2] >= 0 /\ t[3][1][2][j][1] >= 0)

-----------------------------------------------------------------------------
(* extensive form: q.val = [mv |-> moves, lf |-> leaves].  A move is <<path, type, v, player,
   infoset, actions, probabilities>>, a leaf <<path, payoffs <<agent, number>> >>; a path is a
   sequence of <<v, outcome>>. *)
PathFn(p) == [x \in {s[1] : s \in Range(p)} |-> (CHOOSE s \in Range(p) : s[1] = x)[2]]
PathVars(p) == [i \in 1..Len(p) |-> p[i][1]]
JEfg(m, q) ==
  LET S == IF q.all THEN Decs(m) ELSE Set(q.ds)
      X == TreeVars(m, S)
      mv == q.val.mv  lf == q.val.lf
      FM == TreeModel(m, S)
      W == Joint(FM)
      Moves == 1..Len(mv)
      \* open decisions outside the game that payoffs or observations may depend on
      Outside == {e \in UnruledDecs(m) \ S :
                    Desc(m.E, e) \cap (X \cup UNION {UtilsOf(m, a) : a \in Set(q.ag)}) # {}}
  IN IF q.err # "" THEN (IF Relies(m, S) \cup Outside # {} \/ \E a \in Set(q.ag) : Separate(m, UtilsOf(m, a), {}) THEN {} ELSE {"C18:error"})
     ELSE
     OkIf("C18:paths",
       /\ \A i \in 1..Len(lf) : IsTopoOrderOf(PathVars(lf[i][1]), X, m.E)
       /\ LET fs == [i \in 1..Len(lf) |-> PathFn(lf[i][1])]
          IN NoRepeats(fs) /\ Range(fs) = Asgs(X, m.dom)) \cup
     OkIf("C18:moves", \A i \in Moves :
       /\ mv[i][2] = (IF mv[i][3] \in S THEN "d" ELSE "c")
       /\ mv[i][3] \in X /\ mv[i][6] = m.dom[mv[i][3]]
       /\ mv[i][3] \in S => mv[i][4] = m.dec[mv[i][3]]) \cup
     OkIf("C18:infosets", \A i, j \in Moves : (mv[i][3] \in S /\ mv[j][3] \in S) =>
       LET key(k) == <<mv[k][3], Restrict(PathFn(mv[k][1]), Pa(m.E, mv[k][3]) \cap Range(PathVars(mv[k][1])))>>
       IN (mv[i][5] = mv[j][5]) = (key(i) = key(j))) \cup
     OkIf("C18:chance", \A i \in Moves : mv[i][2] = "c" /\ mv[i][3] \in m.N =>
       LET c == PathFn(mv[i][1]) v == mv[i][3] IN
       Given_(W, c) # {} =>
         LET p == Conditional(W, {v}, c, m.dom) IN
         /\ Len(mv[i][7]) = Len(m.dom[v])
         /\ \A k \in 1..Len(m.dom[v]) : Near(p[v :> m.dom[v][k]], mv[i][7][k])) \cup
     OkIf("C18:payoffs", \A i \in 1..Len(lf) :
       LET c == PathFn(lf[i][1]) IN
       Given_(W, c) # {} =>
         /\ {p[1] : p \in Range(lf[i][2])} = Set(q.ag)
         /\ \A p \in Range(lf[i][2]) : Near(ExpectedSum(W, UtilsOf(m, p[1]), c), p[2]))

-----------------------------------------------------------------------------
(* reasoning patterns *)
JPattern(id, m, q, ok) == IF Missing(m, Set(q.eff)) THEN ErrIs("C19:unknown", q, "KeyError")
                          ELSE Ans("C19:" \o id, q, q.val = ok)
JPatterns(m, q) == Ans("C19:patterns", q, ListIs(q.val, Patterns(m)))

(* samples and structural causal models *)
Deterministic(t) == \A pv \in DOMAIN t.rows : \A j \in 1..Len(t.rows[pv]) : t.rows[pv][j] \in {RZero, ROne}
JScm(m, q) == Ans("C21:scm", q, q.val = \A v \in m.N : Pa(m.E, v) # {} => Deterministic(m.tab[v]))
\* q.val: samples, each a sequence of <<node, outcome>>; q.seeds: their seeds
JSample(m, q) ==
  LET W == Joint(m)  tot == Weight(W)
      fs == [i \in 1..Len(q.val) |-> PathFn(q.val[i])]
      K == Len(fs)
      worlds == {w[1] : w \in W}
  IN Ans("C21:sample", q, \A i \in 1..Len(q.val) : Len(q.val[i]) = Cardinality(m.N) /\ fs[i] \in worlds) \cup
     Ans("C21:seed", q, \A i, j \in 1..Len(q.val) : q.seeds[i] = q.seeds[j] => fs[i] = fs[j]) \cup
     (IF K < 100 THEN {}
      ELSE Ans("C21:distribution", q, \A w \in W :
         \* count within six standard deviations (plus 1) of K * w / tot
         LET n == Cardinality({i \in 1..K : fs[i] = w[1]})
             dev == Abs(n * tot - K * w[2]) - tot
         IN dev <= 0 \/ (dev \div tot) * (dev \div tot) * tot <= 36 * K * w[2]))

JDraw(m, q) ==
  LET shape(v) == IF v \in Decs(m) THEN "s" ELSE IF v \in Utils(m) THEN "D" ELSE "o"
      at(v) == CHOOSE x \in Range(q.val) : x[1] = v
      agent(v) == IF v \in Decs(m) THEN m.dec[v] ELSE m.util[v]
      rest == m.N \ (IF "vs" \in DOMAIN q THEN Set(q.vs) ELSE {})
      roled == (Decs(m) \cup Utils(m)) \cap rest
      high == IF "vs" \in DOMAIN q THEN Set(q.vs) ELSE {}
  IN Ans("C07:draw", q,
       /\ ListIs([i \in 1..Len(q.val) |-> q.val[i][1]], m.N)
       /\ \A v \in m.N : at(v)[2] = shape(v)
       /\ \A v, w \in high : at(v)[3] = at(w)[3]
       \* colour 0 is the colour asked for
       /\ "color" \in DOMAIN q => \A v \in high : at(v)[3] = 0
       /\ \A v \in high, w \in m.N \ high : at(v)[3] # at(w)[3]
       /\ \A v, w \in rest \ roled : at(v)[3] = at(w)[3]
       /\ \A v \in rest \ roled, w \in roled : at(v)[3] # at(w)[3]
       /\ IF q.kind = "cid"
          THEN \A v, w \in roled : (at(v)[3] = at(w)[3]) = ((v \in Decs(m)) = (w \in Decs(m)))
          ELSE \A v, w \in roled : (at(v)[3] = at(w)[3]) = (agent(v) = agent(w)))

-----------------------------------------------------------------------------
J(m, q) ==
  CASE q.f = "query" -> JQuery(m, q)
    [] q.f = "ev" -> JEv(m, q)
    [] q.f = "eu" -> JEu(m, q)
    [] q.f = "te" -> JTe(m, q)
    [] q.f = "ite" -> JIte(m, q)
    [] q.f = "dirpaths" -> JDirPaths(m, q)
    [] q.f = "undirpaths" -> JUndirPaths(m, q)
    [] q.f = "motifs" -> JMotifs(m, q)
    [] q.f = "active" -> JActive(m, q)
    [] q.f = "findactive" -> JFindActive(m, q)
    [] q.f = "backdoor" -> JBackdoor(m, q)
    [] q.f = "frontdoor" -> JFrontdoor(m, q)
    [] q.f = "decfree" -> JDecFree(m, q)
    [] q.f = "trail" -> JTrail(m, q)
    [] q.f = "dconn" -> JDconn(m, q)
    [] q.f = "rreach" -> JRreach(m, q)
    [] q.f = "relgraph" -> JRelGraph(m, q)
    [] q.f = "mech" -> JMech(m, q)
    [] q.f = "sccs" -> JSccs(m, q)
    [] q.f = "sccorder" -> JSccOrder(m, q)
    [] q.f = "sccmap" -> JSccMap(m, q)
    [] q.f = "sccdraw" -> JSccDraw(m, q)
    [] q.f = "subgames" -> JSubgames(m, q)
    [] q.f = "recall" -> JRecall(m, q)
    [] q.f = "order" -> JOrder(m, q)
    [] q.f = "req" -> JReq(m, q)
    [] q.f = "reqlist" -> JReqList(m, q)
    [] q.f = "reqgraph" -> JReqGraph(m, q)
    [] q.f = "voi" -> JInc("voi", m, q, {q.d, q.x}, TRUE, VoI(m, q.d, q.x))
    [] q.f = "ri" -> JInc("ri", m, q, {q.d, q.x}, TRUE, RI(m, q.d, q.x))
    [] q.f = "voc" -> JInc("voc", m, q, {q.x}, TRUE, VoC(m, q.x))
    [] q.f = "dvoc" -> JInc("dvoc", m, q, {q.x}, TRUE, DirVoC(m, q.x))
    [] q.f = "ivoc" -> JInc("ivoc", m, q, {q.d, q.x}, TRUE, IndirVoC(m, q.d, q.x))
    [] q.f = "ici" -> JInc("ici", m, q, {q.d, q.x}, FALSE, ICI(m, q.d, q.x))
    [] q.f = "voilist" -> JVoiList(m, q)
    [] q.f = "rilist" -> JIncList("ri", m, q, TRUE, {x \in m.N : RI(m, q.d, x)})
    [] q.f = "voclist" -> JIncList("voc", m, q, TRUE, {x \in m.N : VoC(m, x)})
    [] q.f = "dvoclist" -> JIncList("dvoc", m, q, TRUE, {x \in m.N : DirVoC(m, x)})
    [] q.f = "ivoclist" -> JIncList("ivoc", m, q, TRUE, {x \in m.N : IndirVoC(m, q.d, x)})
    [] q.f = "icilist" -> JIncList("ici", m, q, FALSE, {x \in m.N : ICI(m, q.d, x)})
    [] q.f = "qvoi" -> JQvoi(m, q)
    [] q.f = "qvoc" -> JQvoc(m, q)
    [] q.f = "rules" -> JRules(m, q)
    [] q.f = "policies" -> JPolicies(m, q)
    [] q.f = "joint" -> JJoint(m, q)
    [] q.f = "optpol" -> JOptPol(m, q)
    [] q.f = "solve" -> JSolve(m, q)
    [] q.f = "ne" -> JNe(m, q)
    [] q.f = "spe" -> JSpe(m, q)
    [] q.f = "subgame" -> JSubgame(m, q)
    [] q.f = "efg" -> JEfg(m, q)
    [] q.f = "deff" -> JPattern("direct", m, q, DirectEffect(m, q.d))
    [] q.f = "manip" -> JPattern("manipulation", m, q, Manipulation(m, q.d, Set(q.eff)))
    [] q.f = "sig" -> JPattern("signaling", m, q, Signaling(m, q.d, Set(q.eff)))
    [] q.f = "rev" -> JPattern("revealing", m, q, RevealingOrDenying(m, q.d, Set(q.eff)))
    [] q.f = "patterns" -> JPatterns(m, q)
    [] q.f = "scm" -> JScm(m, q)
    [] q.f = "sample" -> JSample(m, q)
    [] q.f = "draw" -> JDraw(m, q)
=============================================================================
