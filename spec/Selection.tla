------------------------------ MODULE Selection ------------------------------
(* P06, P07: parent selection.                                                  *)
EXTENDS LeapCommon

\* Tournament: worst-first position classes ------------------------------------
\* number of members not better than value v / strictly worse than v
NotBetter(max, pop, v) == Cardinality({ s \in 1..Len(pop) : ~Better(max, pop[s], v) })
StrictlyWorse(max, pop, v) == Cardinality({ s \in 1..Len(pop) : Worse(max, pop[s], v) })
\* numerator over Len(pop)^k of the probability that the winner has value v
WinNum(max, pop, k, v) == Pow(NotBetter(max, pop, v), k) - Pow(StrictlyWorse(max, pop, v), k)
Winners(max, pop, contestants) == { s \in contestants : \A t \in contestants : ~Better(max, pop[t], pop[s]) }

\* Cyclic selection ------------------------------------------------------------
IsTours(n, out, sameOrder) ==   \* out: yielded positions
    \A p \in 1..Len(out) :
       LET t == (p - 1) \div n          \* tour number from 0
           first == t * n + 1
       IN /\ out[p] \in 1..n
          /\ (t = 0 \/ sameOrder) => out[p] = p - t * n
          /\ \A q \in first..(p - 1) : out[q] # out[p]

\* Proportional selection ---------------------------------------------------------
Shares(vals, off, popmin, expo) ==
    LET o == IF popmin THEN -SetMin(Elems(vals)) ELSE off IN
    [ s \in 1..Len(vals) |-> IF expo = 0 THEN 1 ELSE Pow(vals[s] + o, expo) ]
\* one pass of stochastic universal sampling with n points over shares sh
IsSusPass(sh, n, pass) ==
    LET T == SumSeq(sh) IN
    /\ Len(pass) = n
    /\ \A p, q \in 1..n : p < q => pass[p] <= pass[q]
    /\ \A s \in 1..Len(sh) : LET c == Count(pass, s) IN
          /\ c * T <= n * sh[s] + T - 1      \* c <= ceiling
          /\ (c + 1) * T > n * sh[s]         \* c >= floor
----------------------------------------------------------------------------
(* Model 1: a tournament as k draws followed by a decision; the counting law     *)
(* WinNum is checked against exhaustive enumeration of all draws.                 *)
(* Model 2: SUS with rational start u/U: every pass satisfies IsSusPass.          *)
CONSTANTS Vals, MaxPop, MaxK, MaxN, U
ModelVals == {NaN, 0, 1, 2}
VARIABLES mx, pop, k, drawn, sh, n, u
vars == <<mx, pop, k, drawn, sh, n, u>>
Init == /\ mx \in BOOLEAN /\ pop \in SeqsUpTo(Vals, MaxPop) \ {<<>>} /\ k \in 1..MaxK /\ drawn = <<>>
        /\ sh = <<1>> /\ n = 1 /\ u = 1
InitSus == /\ mx = TRUE /\ pop = <<0>> /\ k = 1 /\ drawn = <<>>
           /\ sh \in { s \in SeqsUpTo(0..3, 3) : s # <<>> /\ SumSeq(s) > 0 } /\ n \in 1..MaxN /\ u \in 1..(U - 1)
Draw == Len(drawn) < k /\ \E s \in 1..Len(pop) : drawn' = Append(drawn, s) /\ UNCHANGED <<mx, pop, k, sh, n, u>>
\* exhaustive count of draws whose winner has value v
AllDraws == [1..k -> 1..Len(pop)]
WinLaw == drawn = <<>> =>
    \A v \in Elems(pop) : WinNum(mx, pop, k, v) =
        Cardinality({ d \in AllDraws : \A w \in Winners(mx, pop, { d[x] : x \in 1..k }) : pop[w] = v })
WinnerExists == Len(drawn) = k => Winners(mx, pop, Elems(drawn)) # {}
\* SUS point j (0-based) lies at ((u/U) + j) * T/n; scaled by U*n: (u + j*U) * T
RECURSIVE Owner(_, _, _, _)
Owner(s, acc, point, scale) == IF acc + sh[s] * scale >= point THEN s ELSE Owner(s + 1, acc + sh[s] * scale, point, scale)
Pass == LET T == SumSeq(sh) IN [ j \in 1..n |-> Owner(1, 0, (u + (j - 1) * U) * T, U * n) ]
SusLaw == IsSusPass(sh, n, Pass) /\ \A s \in 1..Len(sh) : sh[s] = 0 => Count(Pass, s) = 0
Next == Draw
=============================================================================
