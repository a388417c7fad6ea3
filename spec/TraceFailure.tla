---------------------------- MODULE TraceFailure ----------------------------
EXTENDS LeapCommon, TraceBase
F == INSTANCE Failure WITH Outcomes <- {}, MaxLen <- 0, hist <- <<>>, marks <- 0, count <- 0, propagated <- FALSE
VARIABLE i
Verdict(e) ==
    IF e.kind = "skipped" THEN {}
    ELSE IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "marks" ->
           C("an-exception-propagated", e.escaped = 0)
           \cup C("marks-of-the-last-outcome", Len(e.seen) = Len(e.hist) /\ \A k \in 1..Len(e.seen) : e.seen[k] = F!Marks(e.hist[k]))
           \cup C("returned-value", \A k \in 1..Len(e.ret) : e.ret[k] = None \/ e.ret[k] = F!Marks(e.hist[k]).fit)
           \cup C("failures-counted", ~e.counted \/ e.count = F!Failures(e.hist))
      [] e.kind = "count" -> C("failures-counted", e.count = e.fails) \cup C("marks", e.marks)
      [] e.kind = "beats" ->      \* kept / left out (survival), winner (selection); viab per id
           C("failed-kept-over-viable", ~(\E x \in Elems(e.kept) : ~e.viab[x] /\ \E y \in Elems(e.left) : e.viab[y]))
      [] e.kind = "run" ->
           C("run-completed", e.done)
           \cup C("sizes", \A k \in 1..Len(e.sizes) : e.sizes[k] = e.popsize)
           \cup C("viable-lost-to-failed", \A k \in 1..(Len(e.nviable) - 1) : e.k = 0 \/ e.nviable[k] = 0 \/ e.nviable[k + 1] >= 1)
           \cup C("best-worsened", \A k \in 1..(Len(e.best) - 1) : e.k = 0 \/ ~Worse(e.max, e.best[k + 1], e.best[k]))
           \cup C("calls", e.calls = e.want)
           \cup C("marks", e.marks)
      [] e.kind = "mo" -> C("run-completed", e.done) \cup C("failed-kept-over-viable", e.kept)
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
