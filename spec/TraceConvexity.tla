--------------------------- MODULE TraceConvexity ---------------------------
EXTENDS LeapCommon, TraceBase
V == INSTANCE Convexity WITH Points <- {}, Q <- 1, MaxTests <- 0, tests <- <<>>
VARIABLE i
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "tests" ->
            LET n == e.n  T == e.tests IN
            C("number-of-tests", Len(T) = n /\ e.npairs = n /\ e.ndeltas = n)
            \cup C("evaluations", e.calls = n)
            \cup C("pair-of-one", \A k \in 1..Len(T) : T[k].x # T[k].y /\ T[k].x \in 1..Len(e.design) /\ T[k].y \in 1..Len(e.design))
            \cup (IF \E k \in 1..Len(T) : T[k].x = 0 \/ T[k].y = 0 THEN {} ELSE
                  C("point-on-segment", \A k \in 1..Len(T) : LET X == e.design[T[k].x]  Y == e.design[T[k].y]
                        s(v) == [ c \in 1..Len(v) |-> 1000 * v[c] ] IN
                        V!OnSegment(s(X), s(Y), T[k].p, 1000 * e.fit[T[k].x], 1000 * e.fit[T[k].y], T[k].f))
                  \cup C("pairs-reached", Cardinality({ {T[k].x, T[k].y} : k \in 1..Len(T) }) = (Len(e.design) * (Len(e.design) - 1)) \div 2))
            \cup C("deltas", Len(e.deltas) = Len(T) /\ \A k \in 1..Len(T) : Abs(e.deltas[k] - (T[k].fp - T[k].f)) <= 2)
            \cup C("own-fitness", e.fresh)
            \cup C("convex-share", \A q \in 1..Len(e.convex) : V!ShareOK(e.convex[q][2], e.deltas, LAMBDA d : d < e.convex[q][1] - 1, LAMBDA d : d <= e.convex[q][1] + 1))
            \cup C("linear-share", \A q \in 1..Len(e.linear) : V!ShareOK(e.linear[q][2], e.deltas, LAMBDA d : Abs(d) < Abs(e.linear[q][1]) - 1, LAMBDA d : Abs(d) <= Abs(e.linear[q][1]) + 1))
            \cup C("deviation", Abs(e.dev * n - SumSeq(e.deltas)) <= 2 * n /\ Abs(e.adev * n - SumSeq([ k \in 1..Len(e.deltas) |-> Abs(e.deltas[k]) ])) <= 2 * n)
            \cup C("landscape-verdict",
                   CASE e.land = "linear" -> e.dlinear = 1000 /\ e.dconvex = 0
                     [] e.land = "convex" -> e.dconvex >= 990 /\ e.dlinear <= 10 /\ e.dev <= 0
                     [] e.land = "concave" -> e.dconvex = 0 /\ e.dlinear <= 10 /\ e.dev >= 0
                     [] OTHER -> TRUE)
            \cup C("design-changed", e.same) \cup C("defensive-copies", e.copies)
            \cup C("results-table", e.table = <<e.dconvex, e.dlinear, e.dev, e.adev>> /\ e.tname)
      [] e.kind = "weights" -> \* the mixing weight is uniform in 0..1
            C("weight-spread", \A q \in 1..4 : FreqOK(e.quart[q], e.n, 1, 4, 70))
      [] e.kind = "exact" ->       \* all deviations equal v (tenths): strictly below the threshold, strictly smaller magnitude
            IF e.hit # e.n THEN {} ELSE
            C("strict-convex-share", e.size \notin {"-20", "20", "0"} \/ \A q \in 1..Len(e.shares) : e.shares[q][2] = IF e.v < e.shares[q][1] THEN 1000 ELSE 0)
            \cup C("strict-linear-share", e.size \notin {"-20", "20", "0"} \/ \A q \in 1..Len(e.shares) : e.shares[q][3] = IF Abs(e.v) < Abs(e.shares[q][1]) THEN 1000 ELSE 0)
            \cup C("default-threshold", e.dflt = CASE e.size \in {"-20", "small"} -> <<1000, 0>> [] e.size \in {"20", "small+"} -> <<0, 0>> [] OTHER -> <<0, 1000>>)
      [] e.kind = "threshold" -> C("non-negative-threshold-accepted", e.refused)
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
