-------------------------------- MODULE Num --------------------------------
(* Integers, rationals and folds.  A rational is a pair <<n, d>> with d > 0 in lowest terms
   (<<0, 0>> is "not a number": what 0/0 produces).  TLC integers are 32 bit and TLC stops
   with an error on overflow, so no wrong answer can come out of an overflow. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b

NaN == <<0, 0>>
Rat(n, d) == IF d = 0 THEN NaN
             ELSE LET g == Gcd(Abs(n), Abs(d))  s == IF d < 0 THEN -1 ELSE 1
                  IN <<s * (n \div g), s * (d \div g)>>
RZero == <<0, 1>>
ROne == <<1, 1>>
RInt(k) == <<k, 1>>
IsNaN(r) == r[2] = 0
RAdd(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN
              ELSE LET l == Lcm(a[2], b[2]) IN Rat(a[1] * (l \div a[2]) + b[1] * (l \div b[2]), l)
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN
              ELSE LET g == Gcd(Abs(a[1]), b[2])  h == Gcd(Abs(b[1]), a[2])
                       g1 == IF g = 0 THEN 1 ELSE g  h1 == IF h = 0 THEN 1 ELSE h
                   IN Rat((a[1] \div g1) * (b[1] \div h1), (a[2] \div h1) * (b[2] \div g1))
RDivI(a, k) == RMul(a, Rat(1, k))
RLess(a, b) == LET c == RSub(a, b) IN c[1] < 0
RLeq(a, b) == ~RLess(b, a)

\* position of x in sequence s (x must occur)
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
IsInjSeq(s) == Cardinality(Range(s)) = Len(s)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSumSeq(Tail(s)))
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))

\* Sum of f[x] over x in S (f a function, S a finite subset of its domain)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
RECURSIVE RSumOver(_, _)
RSumOver(f, S) == IF S = {} THEN RZero ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(f[x], RSumOver(f, S \ {x}))

\* the elements of a finite set of integers in increasing order
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE m \in S : \A y \in S : m <= y IN <<m>> \o SortSet(S \ {m})
\* any sequence listing a finite set (of anything)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

\* number of occurrences of x in s
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
=============================================================================
