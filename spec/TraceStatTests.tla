--------------------------- MODULE TraceStatTests ---------------------------
EXTENDS LeapCommon, TraceBase
S == INSTANCE StatTests WITH Keys <- 1, MaxSamples <- 0, obs <- <<>>
VARIABLE i
Fits(want, got) == want = "open" \/ got = (want = "equal")
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "equal" ->
            C("equality", \A k \in 1..Len(e.got) : Fits(S!Verdict2(e.o, e.e, e.ps[k]), e.got[k]))
            \cup C("monotone-in-p", \A k, l \in 1..Len(e.got) : (k < l /\ ~e.got[l]) => ~e.got[k])      \* ps from loose to strict
            \cup C("p-value", (Len(e.o) > 1 /\ e.o = e.e) => e.pv = 1000)
      [] e.kind = "uniform" -> C("uniformity", \A k \in 1..Len(e.got) : Fits(S!VerdictU(e.o, e.ps[k]), e.got[k]))
      [] e.kind = "totals" -> C("unequal-totals-accepted", e.refused)
      [] e.kind = "collect" -> C("counts", { <<e.got[k][1], e.got[k][2]>> : k \in 1..Len(e.got) } = { <<x, Count(e.seq, x)>> : x \in Elems(e.seq) }) \cup C("calls", e.calls = Len(e.seq))
      [] e.kind = "gauss" ->      \* sample of m-sd / m+sd pairs: t^2 of the two-sample test with pooled deviation; values near the critical one (any df >= 20) are open
            LET num == (e.diff * e.diff) * ((e.n + e.m - 2) * (e.n * e.m))      \* diff x10
                den == 100 * ((((e.n - 1) * (e.sd * e.sd)) + ((e.m - 1) * (e.rsd * e.rsd))) * (e.n + e.m))
                lo == CASE e.p = "p50" -> 3 [] e.p = "p10" -> 6 [] OTHER -> 10
                hi == CASE e.p = "p50" -> 5 [] e.p = "p10" -> 9 [] OTHER -> 17
            IN  C("gaussian", IF num <= lo * den THEN e.got ELSE IF num >= hi * den THEN ~e.got ELSE TRUE)
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
