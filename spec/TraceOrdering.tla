--------------------------- MODULE TraceOrdering ---------------------------
EXTENDS LeapCommon, TraceBase
O == INSTANCE Ordering WITH Dom <- {}, mx <- TRUE, x <- 0, y <- 0, z <- 0
VARIABLE i
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "cmp" ->
            LET o == O!Ops(e.max, e.a, e.b) IN
            IF e.a = NaN /\ e.b = NaN THEN C("ne-is-not-eq", e.ne = ~e.eq)
            ELSE C("lt", e.lt = o.lt) \cup C("gt", e.gt = o.gt) \cup C("eq", e.eq = o.eq) \cup C("ne", e.ne = o.ne)
                 \cup C("le", e.le = o.le) \cup C("ge", e.ge = o.ge)
      [] e.kind = "none" ->
            C("beats-missing", e.gt /\ e.ge /\ e.ne /\ ~e.lt /\ ~e.le /\ ~e.eq)
      [] e.kind = "coin" ->               \* two failed individuals are ordered by a fair coin
            C("coin-biased", FreqOKs(e.ab, e.n, 1, 2, 120) /\ FreqOKs(e.ba, e.n, 1, 2, 120))
      [] e.kind = "pick" ->
            C("max-is-best", e.best \in 1..Len(e.pop) /\ O!IsBest(e.max, e.pop, e.best))
            \cup C("min-is-worst", e.worst \in 1..Len(e.pop) /\ O!IsWorst(e.max, e.pop, e.worst))
            \cup C("sorted", O!IsSorted(e.max, e.pop, e.ord))
            \cup C("reverse-sorted", O!IsSorted(e.max, e.pop, [k \in 1..Len(e.rev) |-> e.rev[Len(e.rev) + 1 - k]]))
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
