------------------------------ MODULE StatTests ------------------------------
(* Decisions of the statistical helpers on count tables: chi-square equality   *)
(* of an observed with an expected table (a key missing from one table counts  *)
(* as zero there), uniformity, and equality of a mean with a reference.        *)
EXTENDS LeapCommon
CONSTANTS Keys, MaxSamples
VARIABLES obs         \* counts per key, filled by sampling

\* 1000 * critical value for 1..6 degrees of freedom
Crit == [ p50 |-> <<3841, 5991, 7815, 9488, 11070, 12592>>, p10 |-> <<6635, 9210, 11345, 13277, 15086, 16812>>, p01 |-> <<10828, 13816, 16266, 18467, 20515, 22458>> ]
\* 1000 * statistic of observed o against expected e (sequences over the same keys, all e > 0)
Chi(o, e) == SumSeq([ k \in 1..Len(o) |-> (1000 * (o[k] - e[k]) * (o[k] - e[k])) \div e[k] ])
Uni(o) == LET n == SumSeq(o) IN (1000 * (Len(o) * SumSeq([ k \in 1..Len(o) |-> o[k] * o[k] ]) - n * n)) \div n
Reject(stat, df, p) == stat > Crit[p][df]
Clear(stat, df, p) == Abs(stat - Crit[p][df]) > 40
\* verdict expected of the equality test: "equal", "differ" or "open" (too close to the critical value)
Verdict2(o, e, p) ==
    IF Len(o) = 1 THEN (IF o = e THEN "equal" ELSE "differ")
    ELSE IF \E k \in 1..Len(o) : e[k] = 0 /\ o[k] > 0 THEN "differ"
    ELSE LET s == Chi(o, e) IN IF ~Clear(s, Len(o) - 1, p) THEN "open" ELSE IF Reject(s, Len(o) - 1, p) THEN "differ" ELSE "equal"
VerdictU(o, p) == IF Len(o) = 1 THEN "equal" ELSE LET s == Uni(o) IN IF ~Clear(s, Len(o) - 1, p) THEN "open" ELSE IF Reject(s, Len(o) - 1, p) THEN "differ" ELSE "equal"

Init == obs = [ k \in 1..Keys |-> 0 ]
Sample == SumSeq(obs) < MaxSamples /\ \E k \in 1..Keys : obs' = [obs EXCEPT ![k] = @ + 1]
Next == Sample
vars == obs
Spec == Init /\ [][Next]_vars
Rev(s) == [ k \in 1..Len(s) |-> s[Len(s) + 1 - k] ]
Even == SumSeq(obs) > 0 /\ SumSeq(obs) % Keys = 0
Flat == [ k \in 1..Keys |-> SumSeq(obs) \div Keys ]
NonNegative == SumSeq(obs) > 0 => Uni(obs) >= 0
ZeroIffFlat == Even => (Uni(obs) = 0 <=> obs = Flat)
Relabel == SumSeq(obs) > 0 => Uni(obs) = Uni(Rev(obs))
UniformIsChi == Even => Abs(Chi(obs, Flat) - Uni(obs)) <= Keys
Stricter == SumSeq(obs) > 0 => \A df \in {Keys - 1} : (Reject(Uni(obs), df, "p01") => Reject(Uni(obs), df, "p10")) /\ (Reject(Uni(obs), df, "p10") => Reject(Uni(obs), df, "p50"))
MoreDfMoreRoom == \A p \in {"p50", "p10", "p01"}, df \in 1..5 : Crit[p][df] < Crit[p][df + 1]
=============================================================================
