----------------------------- MODULE LeapCommon -----------------------------
(* Vocabulary shared by all LEAP specifications: encoding of fitness values,  *)
(* the best-to-worst order of a scalar problem, and small sequence helpers.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NaN  == -1000000      \* fitness of a failed evaluation
None == -1000001      \* no fitness (never evaluated, or invalidated)
Inf  ==  1000000
NInf == -999999

\* a is strictly worse than b in a problem that maximises (max) or minimises
Worse(max, a, b) ==
    IF a = NaN THEN b # NaN
    ELSE IF b = NaN THEN FALSE
    ELSE IF max THEN a < b ELSE a > b
Better(max, a, b) == Worse(max, b, a)

Elems(s) == { s[i] : i \in 1..Len(s) }
Count(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
IsInj(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Elems(s) \cup Elems(t) : Count(s, x) = Count(t, x)
SubBag(s, t) == \A x \in Elems(s) : Count(s, x) <= Count(t, x)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
MapSeq(f, s) == [ i \in 1..Len(s) |-> f[s[i]] ]
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET R == SeqsUpTo(S, n - 1) IN R \cup { Append(r, x) : r \in { q \in R : Len(q) = n - 1 }, x \in S }

\* Clause c of a verdict: empty set when satisfied, its name when violated
C(name, cond) == IF cond THEN {} ELSE {name}

\* Frequency test: of n independent trials, obs fell in a class of probability num/den.
\* Hoeffding: P(|obs/n - p| >= t) <= 2 exp(-2 n t^2); t is tolPermil/1000.
FreqOK(obs, n, num_, den, tolPermil) ==
    Abs(obs * den - n * num_) * 1000 <= tolPermil * n * den
FreqOKs(obs, n, num_, den, tolPermil) ==    \* overflow-safe for den <= 20, n <= 20000
    Abs(obs * den - n * num_) <= ((tolPermil * n) \div 1000) * den + den
\* relative frequency test for rare classes: n * num_ / den is at least 1000 (Chernoff: error below 2 exp(-30))
RelOK(obs, n, num_, den) == LET x == n * num_ IN (obs * den) \div 7 >= x \div 10 - den /\ (obs * den) \div 13 <= x \div 10 + den
=============================================================================
