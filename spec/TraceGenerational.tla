-------------------------- MODULE TraceGenerational --------------------------
(* A case: configuration and the sequence of observed events                      *)
(*   create {pop}; ieval {calls}; stop {pop, gen, ans}; pipe {pop, gen, off}; ret {pop, gen}; *)
(* val maps ids (1..) to fitness.  The walk steps the generational state machine.   *)
EXTENDS LeapCommon, TraceBase
G == INSTANCE Generational WITH Vals <- {}, PopSize <- 0, PoolSize <- 0, MaxGen <- 0, StartGen <- 0, K <- 0, mx <- TRUE, gen <- 0, pop <- <<>>, phase <- "", best0 <- 0, evals <- 0
VARIABLE i
\* st: [ph, gen, par, off]: ph = "init" | "top" (before a generation; par known) | "surv" (offspring made, next population unseen) | "asked" | "end"
Known(e, p) == \A x \in Elems(p) : x \in 1..Len(e.val)
\* resolve the population seen at the top of the loop
Pop(e, st, p) ==
    IF st.ph = "surv"
    THEN IF ~Known(e, p) THEN {"stranger-in-population"}
         ELSE C("population-size", Len(p) = Len(st.off))
              \cup C("not-best-of-offspring-and-elites", G!IsNextPopulation(e.max, e.val, st.off, st.par, e.k, p))
              \cup C("best-fitness-worsened", e.k = 0 \/ st.off = <<>> \/ \A x \in Elems(st.par) : \E y \in Elems(p) : ~Better(e.max, e.val[x], e.val[y]))
    ELSE C("population-changed-between-steps", p = st.par)
RECURSIVE Walk(_, _, _)
Walk(e, st, k) ==
    IF k > Len(e.evs) THEN C("run-did-not-return", st.ph = "end")
    ELSE LET v == e.evs[k]
             g == IF st.ph = "surv" THEN st.gen + 1 ELSE st.gen
         IN
         CASE v.ev = "create" /\ st.ph = "start" ->
                C("initial-size", Len(v.pop) = e.popsize) \cup Walk(e, [st EXCEPT !.ph = "created", !.par = v.pop], k + 1)
           [] v.ev = "ieval" /\ st.ph = "created" ->
                C("initial-evaluation", v.calls = st.par) \cup Walk(e, [st EXCEPT !.ph = "top"], k + 1)
           [] v.ev = "stop" /\ st.ph \in {"top", "surv"} ->
                LET b == Pop(e, st, v.pop) \cup C("published-generation", v.gen = g) IN
                IF b # {} THEN b ELSE Walk(e, [st EXCEPT !.ph = IF v.ans THEN "stopped" ELSE "asked", !.gen = g, !.par = v.pop], k + 1)
           [] v.ev = "pipe" /\ st.ph = "asked" ->
                LET b == C("population-changed-between-steps", v.pop = st.par) \cup C("published-generation", v.gen = st.gen)
                         \cup C("ran-past-maximum", st.gen < e.maxgen) IN
                IF b # {} THEN b ELSE Walk(e, [st EXCEPT !.ph = "surv", !.off = v.off], k + 1)
           [] v.ev = "ret" /\ st.ph \in {"top", "surv", "asked", "stopped"} ->
                LET b == Pop(e, st, v.pop) \cup C("final-generation", v.gen = g)
                         \cup C("stopped-early", st.ph = "stopped" \/ g >= e.maxgen)
                         \cup C("wrong-number-of-generations", st.ph = "stopped" \/ g = Max2(e.maxgen, e.startgen)) IN
                IF b # {} THEN b ELSE Walk(e, [st EXCEPT !.ph = "end"], k + 1)
           [] OTHER -> {"unexpected-step:" \o v.ev \o "-after-" \o st.ph}
Verdict(e) ==
    IF e.kind = "skipped" THEN {} ELSE IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "run" -> Walk(e, [ph |-> "start", gen |-> e.startgen, par |-> <<>>, off |-> <<>>], 1)
                           \cup C("evaluations", ~e.counted \/ e.calls = e.popsize + e.pool * e.ngen)
      [] e.kind = "solve" -> C("client-not-used", e.how # "dask" \/ e.through > 0) \cup C("evaluations", e.calls = e.popsize * (e.maxgen + 1)) \cup C("not-the-best-seen", e.best) \cup C("out-of-bounds", e.inside)
            \cup C("progress-rows", e.head = <<"step", "bsf">> /\ e.steps = [ k \in 1..e.maxgen |-> k - 1 ])
            \cup (IF Len(e.vals) # e.popsize * e.maxgen \/ Len(e.bsf) # e.maxgen THEN {} ELSE
                  C("progress-best-so-far", \A k \in 1..e.maxgen : LET S == { e.vals[q] : q \in 1..(k * e.popsize) } IN
                        e.bsf[k] \in S /\ \A v \in S : IF e.max THEN v <= e.bsf[k] ELSE v >= e.bsf[k]))
            \cup C("initial-out-of-bounds", e.init) \cup C("offspring-out-of-bounds", ~e.hard \/ e.allin)
            \cup C("bounds-enforced-though-soft", e.hard \/ e.still \/ e.popsize * e.maxgen < 200 \/ ~e.allin)
            \cup C("mutation-width", e.still => ~e.moved)
            \cup C("never-mutated", e.still \/ e.popsize * e.maxgen < 20 \/ e.moved)
            \cup C("live-plot", e.how # "viz" \/ e.plotted = e.maxgen)
      [] e.kind = "stopper" -> C("stop-at-generation", e.ans = (e.gen >= e.at))
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
