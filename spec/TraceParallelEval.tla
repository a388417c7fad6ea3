-------------------------- MODULE TraceParallelEval --------------------------
EXTENDS LeapCommon, TraceBase
P == INSTANCE ParallelEval WITH N <- 0, MVals <- {}, vals <- <<>>, bad <- {}, out <- <<>>, pend <- {}, phase <- ""
VARIABLE i
Verdict(e) ==
    IF e.kind = "skipped" THEN {}
    ELSE IF e.exc # "" THEN {"raised"} ELSE
    IF e.kind = "again" THEN C("evaluated-exactly-once", SameBag(e.calls, e.toks)) \cup C("input-order", e.out = e.toks) ELSE
    LET n == Len(e.vals)  want == P!Serial(e.vals, Elems(e.bad)) IN
    C("one-per-input", Len(e.out) = n)
    \cup C("input-order", [ k \in 1..Len(e.out) |-> e.out[k].tok ] = [ k \in 1..n |-> k ])
    \cup C("identity", \A k \in 1..Min2(n, Len(e.out)) : e.out[k].uid = k)
    \cup C("fitness-differs-from-serial", Len(e.out) = n => [ k \in 1..n |-> e.out[k].fit ] = want)
    \cup C("serial-reference", [ k \in 1..n |-> e.serial[k] ] = want)
    \cup C("viability", Len(e.out) = n => \A k \in 1..n : e.out[k].viable = (k \notin Elems(e.bad)))
    \cup C("evaluated-exactly-once", ~e.counted \/ SameBag(e.calls, [ k \in 1..n |-> k ]))
    \cup C("when-where-who", \A k \in 1..Len(e.out) : e.out[k].stamp)
    \cup C("took-exactly-the-requested-number", e.taken = n)
    \cup C("is-a-list", e.list)
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
