---------------------------- MODULE TraceCounters ----------------------------
EXTENDS LeapCommon, TraceBase
K == INSTANCE Counters WITH Starts <- {}, Ds <- {}, MaxOps <- 0, NInd <- 0, start <- 0, cur <- 0, pub <- 0, hist <- <<>>, log <- <<>>, birth <- <<>>, nextb <- 0, passed <- <<>>
VARIABLE i
Val(e, k) == K!After(e.start, SubSeq(e.ops, 1, k))
Incs(e) == SelectSeq([ k \in 1..Len(e.ops) |-> k ], LAMBDA k : e.ops[k] >= 0)
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "counter" ->
            C("start-published", e.own0 = e.start /\ e.pub0 = e.start)
            \cup C("return-value", \A k \in 1..Len(e.ops) : e.ret[k] = Val(e, k))
            \cup C("own-value", \A k \in 1..Len(e.ops) : e.own[k] = Val(e, k))
            \cup C("published-value", \A k \in 1..Len(e.ops) : e.pub[k] = Val(e, k))
            \cup C("announcements", e.log = [ m \in 1..(Len(Incs(e)) * e.ncb) |->
                       << ((m - 1) % e.ncb) + 1, Val(e, Incs(e)[((m - 1) \div e.ncb) + 1]) >> ])
            \cup C("other-context-touched", e.foreign)
      [] e.kind = "step" ->
            IF K!Ambiguous(e.g, e.b, e.ug, e.ub) \/ K!Missing(e.g, e.b, e.ug, e.ub)
            THEN C("bad-query-answered", (e.ug = "F" /\ e.ub = "N") \/ (e.ug = "N" /\ e.ub = "F") \/ e.err # "")
            ELSE C("good-query-refused", e.err = "") \cup C("wrong-counter", e.err # "" \/ e.ans = K!StepAnswer(e.g, e.b, e.gv, e.bv, e.ug, e.ub)) \cup C("context-changed", e.same)
      [] e.kind = "brand" ->     \* flat: individuals in passing order; births right after each pass; fin: births at the end
            LET o == K!FirstSeen(e.flat, <<>>) IN
            C("handed-on-others", e.out = e.flat)
            \cup C("birth-number", \A k \in 1..Len(e.flat) : e.births[k] = K!BirthOf(o, e.flat[k]))
            \cup C("rebranded", \A x \in Elems(e.flat) : e.fin[x] = K!BirthOf(o, x))
            \cup C("branded-unasked", \A x \in 1..Len(e.fin) : x \in Elems(e.flat) \/ e.fin[x] = None)
      [] e.kind = "brand-foreign" -> C("foreign-rebranded", e.after = e.before) \cup C("gap", e.fresh = [ k \in 1..Len(e.fresh) |-> k - 1 ])
      [] e.kind = "brand-clone" -> C("clone-shares-birth", IsInj(e.births))
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
