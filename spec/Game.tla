-------------------------------- MODULE Game --------------------------------
(* Policies, expected utilities, optimality, Nash and subgame perfect equilibria, and the
   extensive form.  A pure rule of decision d is a function from assignments of Pa(d) to
   actions; a pure policy of a set F of decisions a function from F to pure rules; a profile
   maps decisions to tables like those of Prob.tla. *)
EXTENDS Api

FreeTab(m, d) == LET P == Pa(m.E, d) IN
  [pa |-> P, rows |-> [pv \in Asgs(P, m.dom) |-> [j \in 1..Len(m.dom[d]) |-> ROne]]]
UniformTab(m, d) == LET P == Pa(m.E, d) IN
  [pa |-> P, rows |-> [pv \in Asgs(P, m.dom) |-> [j \in 1..Len(m.dom[d]) |-> Rat(1, Len(m.dom[d]))]]]
\* decisions of F carry weight 1 whatever they do: the weights of the worlds of any pure policy
\* of F add up to the same total
FreeModel(m, F) == [m EXCEPT !.tab = [v \in DOMAIN @ |-> IF v \in F THEN FreeTab(m, v) ELSE @[v]]]
WithTabs(m, T) == [m EXCEPT !.tab = T @@ @]

PureRules(m, d) == [Asgs(Pa(m.E, d), m.dom) -> Range(m.dom[d])]
RECURSIVE PurePolicies(_, _)
PurePolicies(m, F) ==
  IF F = {} THEN {EmptyFn}
  ELSE LET d == CHOOSE d \in F : TRUE
       IN {Put(p, d, r) : p \in PurePolicies(m, F \ {d}), r \in PureRules(m, d)}
RuleTab(m, d, r) == [pa |-> Pa(m.E, d),
  rows |-> [pv \in DOMAIN r |-> [j \in 1..Len(m.dom[d]) |-> IF m.dom[d][j] = r[pv] THEN ROne ELSE RZero]]]
PolicyTabs(m, pol) == [d \in DOMAIN pol |-> RuleTab(m, d, pol[d])]

\* The game tree of decisions S shows them and their observations.
TreeVars(m, S) == S \cup UNION {Pa(m.E, d) : d \in S}
(* The decisions of S as a game: the set of the possible plays (assignments of TreeVars), each
   with the weighted sum of the utilities Us[a] for every a in DOMAIN Us, where the decisions of
   S have weight 1 whatever they do. *)
UtilSum(f, U) == MapThenSumSet(LAMBDA u : f[u], U)
RECURSIVE Split(_, _, _, _, _)
Split(dom, W, vs, k, Us) ==
  IF vs = <<>> THEN {<<k, [a \in DOMAIN Us |-> MapThenSumSet(LAMBDA p : p[2] * UtilSum(p[1], Us[a]), W)]>>}
  ELSE UNION {LET Wo == {p \in W : p[1][Head(vs)] = o}
              IN IF Wo = {} THEN {} ELSE Split(dom, Wo, Tail(vs), k @@ (Head(vs) :> o), Us)
              : o \in Range(dom[Head(vs)])}
Plays(m, S, Us) == Split(m.dom, Joint(FreeModel(m, S)), SeqOf(TreeVars(m, S)), <<>>, Us)
\* sum over the plays that follow pure policy pol
Follows(f, pol, P) == \A d \in DOMAIN pol : f[d] = pol[d][Restrict(f, P[d])]
PolicyValue(R, a, pol, P) == MapThenSumSet(LAMBDA p : p[2][a], {p \in R : Follows(p[1], pol, P)})
PaOf(m, F) == [d \in F |-> Pa(m.E, d)]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* value of every pure policy of F for utilities U, everything else as in m
Values(m, F, U) == LET R == Plays(m, F, [a \in {0} |-> U])  P == PaOf(m, F)
                   IN [pol \in PurePolicies(m, F) |-> PolicyValue(R, 0, pol, P)]
MaxValue(v) == MaxOf(Range(v))
\* the total weight every policy has: product of denominators of the tables of the other nodes
TotalWeight(m, F) == FoldSet(LAMBDA v, acc : DenOf(m.tab[v]) * acc, 1, m.N \ F)
MaxEU(m, F, U) == Rat(MaxValue(Values(m, F, U)), TotalWeight(m, F))
OptimalPolicies(m, F, U) == LET v == Values(m, F, U)  b == MaxValue(v) IN {p \in DOMAIN v : v[p] = b}

\* pure policies inside the support of profile T (a function from F to tables)
InSupport(m, T, pol) == \A d \in DOMAIN pol : \A pv \in DOMAIN pol[d] :
   T[d].rows[pv][Pos(m.dom[d], pol[d][pv])][1] > 0
\* expected utility is linear in each rule, so a profile is optimal for the owner of F iff all
\* pure policies in its support are
BestResponse(m, T, F, U) ==
  LET v == Values(m, F, U)  b == MaxValue(v)
  IN \A pol \in DOMAIN v : InSupport(m, T, pol) => v[pol] = b

ProperTab(m, d, t) ==
  /\ t.pa = Pa(m.E, d) /\ DOMAIN t.rows = Asgs(Pa(m.E, d), m.dom)
  /\ \A pv \in DOMAIN t.rows :
       /\ Len(t.rows[pv]) = Len(m.dom[d])
       /\ \A j \in 1..Len(t.rows[pv]) : t.rows[pv][j][1] >= 0
       /\ RSumSeq(t.rows[pv]) = ROne
AgentsOf(m, S) == {m.dec[d] : d \in S}
GameOf(m, S) == Plays(m, S, [a \in AgentsOf(m, S) |-> UtilsOf(m, a)])
\* T: tables for the decisions S of the game G = GameOf(m, S)
NashIn(m, G, S, T) == \A a \in AgentsOf(m, S) :
  LET F == DecsOf(m, a) \cap S
      P == PaOf(m, S)
      den == [d \in S |-> DenOf(T[d])]
      prob(f, d) == T[d].rows[Restrict(f, P[d])][Pos(m.dom[d], f[d])]
      \* weight the others give to a play (common denominator)
      w(f) == ProdSeq([i \in 1..Cardinality(S \ F) |->
                LET d == SeqOf(S \ F)[i]  x == prob(f, d) IN x[1] * (den[d] \div x[2])])
      R == {<<p[1], (a :> p[2][a] * w(p[1]))>> : p \in {q \in G : \A d \in S \ F : prob(q[1], d)[1] # 0}}
      v == [pol \in PurePolicies(m, F) |-> PolicyValue(R, a, pol, P)]
      b == MaxValue(v)
  IN \A pol \in DOMAIN v : InSupport(m, T, pol) => v[pol] = b
IsNash(m, S, T) == NashIn(m, GameOf(m, S), S, T)
\* subgames: decisions outside behave uniformly
SubModel(m, S) == WithTabs(m, [d \in Decs(m) \ S |-> UniformTab(m, d)])
SubGames(m) == [S \in SubgameDecs(m) |-> GameOf(SubModel(m, S), S)]
\* G = SubGames(m)
SubgamePerfectIn(m, G, T) == \A S \in DOMAIN G : NashIn(m, G[S], S, Restrict(T, S))
IsSubgamePerfect(m, T) == SubgamePerfectIn(m, SubGames(m), T)

-----------------------------------------------------------------------------
(* All pure equilibria of the decisions S, by brute force over profiles *)
PureNashIn(m, G, S) ==
  LET Ags == AgentsOf(m, S)
      P == PaOf(m, S)
      val == [p \in PurePolicies(m, S) |->
               LET R == {x \in G : Follows(x[1], p, P)}
               IN [a \in Ags |-> MapThenSumSet(LAMBDA x : x[2][a], R)]]
      Alts == [a \in Ags |-> PurePolicies(m, DecsOf(m, a) \cap S)]
  IN {p \in DOMAIN val : \A a \in Ags : \A q \in Alts[a] : val[q @@ p][a] <= val[p][a]}
PureNash(m, S) == PureNashIn(m, GameOf(m, S), S)
\* pure profiles that are equilibria in every subgame; G = SubGames(m)
PureSubgamePerfectIn(m, G) ==
  LET ne == [S \in DOMAIN G |-> PureNashIn(m, G[S], S)]
  IN {p \in PurePolicies(m, Decs(m)) : \A S \in DOMAIN G : Restrict(p, S) \in ne[S]}

\* perfect recall within S: each agent's decisions form a chain of growing information
PerfectRecall(m, S) == \A d, e \in S : (d # e /\ m.dec[d] = m.dec[e]) =>
   \/ ({d} \cup Pa(m.E, d)) \subseteq Pa(m.E, e)
   \/ ({e} \cup Pa(m.E, e)) \subseteq Pa(m.E, d)
\* context pv of d is excluded by the owner's earlier choices under pure profile p
SelfExcluded(m, S, p, d, pv) == \E e \in Pa(m.E, d) \cap S :
   m.dec[e] = m.dec[d] /\ Pa(m.E, e) \subseteq Pa(m.E, d) /\ p[e][Restrict(pv, Pa(m.E, e))] # pv[e]
(* What table profiles that play pure profile p must contain, <<d, context, action>>: p's choices
   wherever p's own earlier choices and the rest of the model allow to get.  G = GameOf(m, S) for
   S = DOMAIN p; in the second form the decisions of S are solved in the groups gs, each when the
   rest of p is settled. *)
Required(m, G, p) == LET S == DOMAIN p IN
  {<<d, pv, p[d][pv]>> : <<d, pv>> \in
    {<<d, pv>> \in UNION {{<<d, pv>> : pv \in DOMAIN p[d]} : d \in S} :
       /\ ~SelfExcluded(m, S, p, d, pv)
       /\ \E x \in G : Consistent(x[1], pv)}}
RequiredIn(m, G, p, gs) == LET S == DOMAIN p  P == PaOf(m, S) IN
  UNION {Required(m, {x \in G : Follows(x[1], Restrict(p, S \ c), P)}, Restrict(p, c)) : c \in gs}
Meets(m, T, R) == \A r \in R : T[r[1]].rows[r[2]][Pos(m.dom[r[1]], r[3])] = ROne

-----------------------------------------------------------------------------
(* Subgames as models.  Boundary nodes (observed parents outside the core) keep their domain
   and have some distribution without parents. *)
SubgameDec(m, A) == Restrict(m.dec, A)
SubgameUtil(m, A) == LET C == SubgameCore(m, A) IN Restrict(m.util, DOMAIN m.util \cap C)

(* Extensive form. *)
\* the distribution chance and payoffs refer to: decisions of S made with equal probability
TreeModel(m, S) == WithTabs(m, [d \in S |-> FreeTab(m, d)])
=============================================================================
