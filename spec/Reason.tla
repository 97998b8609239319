------------------------------- MODULE Reason -------------------------------
(* Reasoning patterns (Pfeffer & Gal 2007), as documented with each function of
   pycid.analyze.reasoning_patterns; Eff is the set of effective decisions. *)
EXTENDS Influence

\* all decisions on the path, except possibly the first node and except forks, are effective
PathEffective(g, p, Eff) ==
  \A i \in 2..Len(p) : (p[i] \in Decs(g) /\ Motif(g.E, p, i) # "fork") => p[i] \in Eff
EffDir(g, s, t, Eff, Y) == \E p \in DirPaths(g.E, s, t) : Range(p) \cap Y = {} /\ PathEffective(g, p, Eff)

DirectEffect(g, d) == \E u \in UtilsOf(g, g.dec[d]) : DecisionFreeDirPath(g.E, Decs(g), d, u)
\* candidate decisions D_B, with the utility nodes of A that D_B effectively influences
Influenced(g, d, Eff) ==
  {bu \in ((Eff \cap Decs(g)) \ {d}) \X UtilsOf(g, g.dec[d]) :
     DecisionFreeDirPath(g.E, Decs(g), d, bu[1]) /\ EffDir(g, bu[1], bu[2], Eff, {})}
\* W^x_y: the parents of y that are not descendants of x
WSet(g, x, y) == Pa(g.E, y) \ Desc(g.E, x)

Manipulation(g, d, Eff) ==
  \E bu \in Influenced(g, d, Eff) : \E ub \in UtilsOf(g, g.dec[bu[1]]) : EffDir(g, d, ub, Eff, {bu[1]})

KeyIndex(g, p) == CHOOSE i \in 2..(Len(p) - 1) :
  Motif(g.E, p, i) = "fork" /\ \A j \in 2..(i - 1) : Motif(g.E, p, j) # "fork"
Signaling(g, d, Eff) ==
  \E bu \in Influenced(g, d, Eff) : \E ub \in UtilsOf(g, g.dec[bu[1]]) :
    \E p \in UndirPaths(g.E, d, ub) :
      /\ Len(p) > 2 /\ <<p[2], p[1]>> \in g.E
      /\ ActivePath(g.E, p, {bu[1]} \cup WSet(g, d, bu[1]))
      /\ PathEffective(g, p, Eff)
      /\ LET c == p[KeyIndex(g, p)] IN
         \E q \in UndirPaths(g.E, c, bu[2]) :
            ActivePath(g.E, q, {d} \cup WSet(g, c, d)) /\ PathEffective(g, q, Eff)

RevealingOrDenying(g, d, Eff) ==
  \E bu \in Influenced(g, d, Eff) : \E ub \in UtilsOf(g, g.dec[bu[1]]) :
    \E p \in UndirPaths(g.E, d, ub) :
      /\ Len(p) > 1 /\ <<p[1], p[2]>> \in g.E
      /\ \E i \in 2..(Len(p) - 1) : Motif(g.E, p, i) = "collider"
      /\ ActivePath(g.E, p, {bu[1]} \cup WSet(g, d, bu[1]))
      /\ PathEffective(g, p, Eff)

Motivated(g, d, Eff) == DirectEffect(g, d) \/ Manipulation(g, d, Eff)
                        \/ Signaling(g, d, Eff) \/ RevealingOrDenying(g, d, Eff)
RECURSIVE EffectiveFrom(_, _)
EffectiveFrom(g, Eff) == LET S == {d \in Eff : Motivated(g, d, Eff)} IN
                         IF S = Eff THEN Eff ELSE EffectiveFrom(g, S)
EffectiveSet(g) == EffectiveFrom(g, Decs(g))
PatternOf(g, d, Eff) == CASE DirectEffect(g, d) -> "dir_effect"
                          [] Signaling(g, d, Eff) -> "sig"
                          [] Manipulation(g, d, Eff) -> "manip"
                          [] OTHER -> "rev_den"
Patterns(g) == LET Eff == EffectiveSet(g) IN {<<PatternOf(g, d, Eff), d>> : d \in Eff}
UtilitiesChildless(g) == \A u \in Utils(g) : Ch(g.E, u) = {}
=============================================================================
