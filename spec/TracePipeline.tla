---------------------------- MODULE TracePipeline ----------------------------
EXTENDS LeapCommon, TraceBase
P == INSTANCE Pipeline WITH MaxStages <- 0, MaxPool <- 0, Kinds <- {}, OpKinds <- {}, stages <- <<>>, want <- 0, taken <- <<>>, held <- <<>>, out <- 0, ask <- 0, val <- "", chain <- <<>>, status <- ""
VARIABLE i
Cls(v) == IF v = "list" THEN "list" ELSE IF v \in {"gen", "listiter", "map", "iter"} THEN "iter" ELSE v
Kinds2(st) == [ k \in 1..Len(st) |-> IF st[k] = "pair" THEN "pair" ELSE "map" ]
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "flow" ->    \* early: pulls before anything was asked for; taps: pulls per stage; org: possible source positions of each result
            LET st == Kinds2(e.st) IN
            C("not-lazy", \A k \in 1..Len(e.early) : e.early[k] = 0)
            \cup C("refused-good-pipeline", e.err = "")
            \cup (IF e.err # "" THEN {} ELSE
              C("pool-size", Len(e.org) = e.n)
              \cup C("pull-count", e.taps = P!Needs(st, e.n))
              \cup C("order", \A j \in 1..Len(e.org) : e.org[j] # <<>> /\ Elems(e.org[j]) \subseteq P!Block(st, j))
              \cup C("identity", ~e.fresh => e.same)
              \cup C("evaluations", e.evals = SumSeq([ k \in 1..Len(st) |-> IF e.st[k] = "eval" THEN P!Need(st, k, e.n) ELSE 0 ])))
      [] e.kind = "short" ->   \* the source ends before the pool is full
            C("short-pool", e.res = "error" \/ (e.res = "full" /\ P!Need(Kinds2(e.st), 1, e.n) <= e.src))
            \cup C("full-pool-refused", e.res = "full" \/ P!Need(Kinds2(e.st), 1, e.n) > e.src)
      [] e.kind = "deco" ->
            LET want == P!OpOutcome(e.ik, e.ok, Cls(e.v), Cls(e.r)) IN
            C("miswired-accepted", want # "refused" \/ e.err = "ValueError")
            \cup C("wired-refused", want = "refused" \/ e.err = "")
            \cup C("result-replaced", e.err # "" \/ e.same)
            \cup C("ran-on-bad-input", e.ran = (Cls(e.v) = e.ik))
            \cup C("arguments", e.args)
      [] e.kind = "lib" ->
            C("miswired-accepted", Cls(e.v) = e.ik \/ e.err = "ValueError")
            \cup C("wired-refused", Cls(e.v) # e.ik \/ (e.err = "" /\ Cls(e.r) = e.ok))
      [] e.kind = "missing" -> C("missing-argument-unreported", e.err # "")
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
