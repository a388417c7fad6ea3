--------------------------- MODULE TraceCrossover ---------------------------
EXTENDS LeapCommon, TraceBase
X == INSTANCE Crossover WITH MaxLen <- 0, MaxPts <- 0, a <- <<>>, b <- <<>>, n <- 0, S <- {}
VARIABLE i
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "nary" ->         \* outs: distinct observed <<child1, child2>> with counts
            C("genes-not-conserved", \A o \in 1..Len(e.outs) : X!Conserves(e.a, e.b, e.outs[o].c, e.outs[o].d))
            \cup C("too-many-alternations", \A o \in 1..Len(e.outs) : X!Alternations(e.a, e.b, e.outs[o].c) <= e.pts)
            \cup C("impossible-outcome", \A o \in 1..Len(e.outs) : X!IsOutcome(e.a, e.b, e.pts, e.outs[o].c, e.outs[o].d))
            \cup C("genome-type", e.typeok)
            \cup (IF e.stat THEN
                    LET M == X!Choose_(Min2(Len(e.a), Len(e.b)), e.pts) IN
                    C("cut-choice-unreachable", { <<e.outs[o].c, e.outs[o].d>> : o \in 1..Len(e.outs) } = X!Outcomes(e.a, e.b, e.pts))
                    \cup C("cut-choice-not-uniform", \A o \in 1..Len(e.outs) : FreqOK(e.outs[o].n, e.n, 1, M, 70))
                  ELSE {})
      [] e.kind = "uniform" ->      \* p_swap = num/den
            LET m == Min2(Len(e.a), Len(e.b))
                swapped(o) == X!Swapped(e.a, e.b, e.outs[o].c)
                hits(j) == SumSeq([ o \in 1..Len(e.outs) |-> IF j \in swapped(o) THEN e.outs[o].n ELSE 0 ])
                both(j, k) == SumSeq([ o \in 1..Len(e.outs) |-> IF j \in swapped(o) /\ k \in swapped(o) THEN e.outs[o].n ELSE 0 ])
            IN C("genes-not-conserved", \A o \in 1..Len(e.outs) : X!Conserves(e.a, e.b, e.outs[o].c, e.outs[o].d))
               \cup C("tail-moved", \A o \in 1..Len(e.outs) : Len(e.outs[o].c) = Len(e.a))
               \cup C("swaps-with-zero-probability", e.pn > 0 \/ \A o \in 1..Len(e.outs) : swapped(o) = {})
               \cup C("misses-with-probability-one", e.pn < e.pd \/ \A o \in 1..Len(e.outs) : swapped(o) = 1..m)
               \cup C("genome-type", e.typeok)
               \cup (IF e.stat THEN
                       C("swap-probability", \A j \in 1..m : FreqOK(hits(j), e.n, e.pn, e.pd, 70))
                       \cup C("swaps-not-independent", \A j, k \in 1..m : j < k => FreqOK(both(j, k), e.n, e.pn * e.pn, e.pd * e.pd, 70))
                     ELSE {})
      [] e.kind = "longcuts" -> C("cut-choice-not-uniform", \A j \in 1..e.len : FreqOKs(e.hits[j], e.n, e.pts, e.len, 70))
                                \cup C("cut-place-never-used", \A j \in 1..e.len : e.hits[j] > 0)
      [] e.kind = "longswap" -> C("swap-probability", \A j \in 1..e.len : FreqOKs(e.hits[j], e.n, e.pn, e.pd, 70))
      [] e.kind = "rejected" -> C("accepted-bad-arguments", e.error # "")
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
