------------------------------ MODULE Analysis ------------------------------
(* Summaries of experiment runs.  A row is [e, j, t, y, z]: experiment, run,   *)
(* time, and two metrics.  The summaries are functions of the set of rows of   *)
(* a group, whatever the order in which the rows were written to the file.     *)
EXTENDS LeapCommon
CONSTANTS Exps, Jobs, Times, Vals, MaxRows
VARIABLES rows

Rows(rs, P(_)) == SelectSeq(rs, P)
Keys(rs, K(_)) == { K(rs[i]) : i \in 1..Len(rs) }
Ys(rs, m) == [ i \in 1..Len(rs) |-> IF m = "y" THEN rs[i].y ELSE rs[i].z ]
Val(r, m) == IF m = "y" THEN r.y ELSE r.z
\* n * mean, and n*(n-1) * sample variance
SumOf(xs) == SumSeq(xs)
VarN(xs) == Len(xs) * SumSeq([ i \in 1..Len(xs) |-> xs[i] * xs[i] ]) - SumSeq(xs) * SumSeq(xs)
\* area under the curve of one run: every value weighted with the time since the row before
Prev(rs, i) == LET B == { k \in 1..Len(rs) : rs[k].t < rs[i].t } IN IF B = {} THEN rs[i].t ELSE SetMax({ rs[k].t : k \in B })
Auc(rs, m) == SumSeq([ i \in 1..Len(rs) |-> (rs[i].t - Prev(rs, i)) * Val(rs[i], m) ])
MaxOf(rs, m) == SetMax({ Val(rs[i], m) : i \in 1..Len(rs) })
Measure(rs, m, how) == IF how = "auc" THEN Auc(rs, m) ELSE MaxOf(rs, m)

CurveKeys(rs) == { <<rs[i].t, rs[i].e>> : i \in 1..Len(rs) }
AtKey(rs, t, e) == SelectSeq(rs, LAMBDA r : r.t = t /\ r.e = e)
RunKeys(rs) == { <<rs[i].j, rs[i].e>> : i \in 1..Len(rs) }
Run(rs, j, e) == SelectSeq(rs, LAMBDA r : r.j = j /\ r.e = e)
ExpRuns(rs, e) == { k \in RunKeys(rs) : k[2] = e }
RECURSIVE SumF(_, _)
SumF(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(S \ {x}, f)
SumSet(S, f(_)) == SumF(S, [ x \in S |-> f(x) ])
ScalarSum(rs, e, m, how) == SumSet(ExpRuns(rs, e), LAMBDA k : Measure(Run(rs, k[1], k[2]), m, how))
ScalarSq(rs, e, m, how) == SumSet(ExpRuns(rs, e), LAMBDA k : Measure(Run(rs, k[1], k[2]), m, how) * Measure(Run(rs, k[1], k[2]), m, how))
\* a reported (mean, std), both x1000, fits n values of sum s and square sum q; std of one value is undefined
StatOK(n, s, q, mean, std) ==
    /\ Abs(mean * n - 1000 * s) <= n
    /\ IF n = 1 THEN std = NaN
       ELSE LET v == n * q - s * s  d == n * (n - 1) IN      \* std^2 = v / d
            std >= 0 /\ LET a == std \div 100  IN (a < 1 \/ (a - 1) * (a - 1) * d <= 100 * v) /\ (a + 2) * (a + 2) * d >= 100 * v

Init == rows = <<>>
\* rows arrive in any order, one per (experiment, run, time)
Write == /\ Len(rows) < MaxRows
         /\ \E e \in Exps, j \in Jobs, t \in Times, v \in Vals :
              /\ \A i \in 1..Len(rows) : ~(rows[i].e = e /\ rows[i].j = j /\ rows[i].t = t)
              /\ rows' = Append(rows, [e |-> e, j |-> j, t |-> t, y |-> v, z |-> -v])
Next == Write
vars == rows
Spec == Init /\ [][Next]_vars
Rev == [ i \in 1..Len(rows) |-> rows[Len(rows) + 1 - i] ]
OrderIrrelevant == \A k \in RunKeys(rows) : Auc(Run(rows, k[1], k[2]), "y") = Auc(Run(Rev, k[1], k[2]), "y")
Linear == \A k \in RunKeys(rows) : Auc(Run(rows, k[1], k[2]), "z") = -Auc(Run(rows, k[1], k[2]), "y")
FirstRowWeightless == \A k \in RunKeys(rows) : Len(Run(rows, k[1], k[2])) = 1 => Auc(Run(rows, k[1], k[2]), "y") = 0
AucBounded == \A k \in RunKeys(rows) : LET r == Run(rows, k[1], k[2])  T == { r[i].t : i \in 1..Len(r) } IN
                  Auc(r, "y") <= (SetMax(T) - SetMin(T)) * MaxOf(r, "y")
MeanBetween == \A k \in CurveKeys(rows) : LET xs == Ys(AtKey(rows, k[1], k[2]), "y") IN
                  /\ SumOf(xs) <= Len(xs) * SetMax(Elems(xs)) /\ SumOf(xs) >= Len(xs) * SetMin(Elems(xs)) /\ VarN(xs) >= 0
Partition == LET n(k) == Len(Run(rows, k[1], k[2]))  c(k) == Len(AtKey(rows, k[1], k[2])) IN
             SumSet(RunKeys(rows), n) = Len(rows) /\ SumSet(CurveKeys(rows), c) = Len(rows)
=============================================================================
