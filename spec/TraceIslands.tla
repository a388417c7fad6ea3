---------------------------- MODULE TraceIslands ----------------------------
(* Events: init {made: <<rep, ids>>...}, ieval {calls, probs}, stop {pops, gen, ans},   *)
(* sh {cur, gen, live, in, out}, own {isl, cur, gen, live, in, out}, ev {prob, cur, gen} *)
(* (a fitness call), ret {pops, gen}.  sh/own give what one stage received and returned. *)
EXTENDS LeapCommon, TraceBase
I == INSTANCE Islands WITH N <- 0, MaxGen <- 0, gen <- 0, cur <- 0, pops <- <<>>, live <- <<>>, phase <- "", evald <- <<>>
VARIABLE i
See(st, v) == C("wrong-current-subpopulation", v.cur = st.cur) \cup C("wrong-generation", v.gen = st.gen) \cup C("subpopulation-list-not-live", v.live = st.pops)
\* st: [ph, gen, cur (0-based island being processed), pops, out]
Top(st, n) == st.ph = "ready" \/ (st.ph = "between" /\ st.cur = n)
AtTop(st) == IF st.ph = "ready" THEN st ELSE [st EXCEPT !.ph = "ready", !.gen = @ + 1, !.cur = 0]
RECURSIVE Walk(_, _, _)
Walk(e, st, k) ==
    IF k > Len(e.evs) THEN C("run-did-not-return", st.ph = "end")
    ELSE LET v == e.evs[k] IN
    CASE v.ev = "init" /\ st.ph = "start" ->
           C("one-subpopulation-per-island", Len(v.pops) = e.n /\ \A p \in Elems(v.pops) : Len(p) = e.popsize)
           \cup C("own-representation", \A p \in 1..Len(v.pops) : \A x \in Elems(v.pops[p]) : e.repof[x] = (IF e.reps THEN p ELSE 1))
           \cup C("own-problem", \A p \in 1..Len(v.pops) : \A x \in Elems(v.pops[p]) : e.probof[x] = (IF e.probs THEN p ELSE 1))
           \cup C("evaluated-exactly-once", \A p \in 1..Len(v.pops) : \A x \in Elems(v.pops[p]) : Count(v.calls, x) = 1)
           \cup C("no-other-evaluations", Len(v.calls) = e.n * e.popsize)
           \cup Walk(e, [st EXCEPT !.ph = "ready", !.pops = v.pops], k + 1)
      [] v.ev = "stop" /\ Top(st, e.n) ->
           LET s == AtTop(st)
               b == C("stop-asked-with-other-populations", v.pops = s.pops) \cup C("wrong-generation", v.gen = s.gen) IN
           IF b # {} THEN b ELSE Walk(e, [s EXCEPT !.ph = IF v.ans THEN "stopped" ELSE "asked"], k + 1)
      [] v.ev = "sh" /\ (st.ph = "asked" \/ (st.ph = "between" /\ st.cur < e.n)) ->
           LET s == [st EXCEPT !.ph = IF e.own THEN "shared" ELSE "processed", !.out = v.out]
               b == See(st, v) \cup C("ran-past-maximum", st.gen < e.maxgen)
                    \cup C("pipeline-got-other-parents", st.cur < Len(st.pops) /\ v.in = st.pops[st.cur + 1]) IN
           IF b # {} THEN b
           ELSE IF e.own THEN Walk(e, s, k + 1)
           ELSE Walk(e, [s EXCEPT !.ph = "between", !.pops[st.cur + 1] = v.out, !.cur = @ + 1], k + 1)
      [] v.ev = "own" /\ st.ph = "shared" ->
           LET b == See(st, v) \cup C("someone-elses-pipeline", v.isl = st.cur + 1) \cup C("own-pipeline-got-something-else", v.in = st.out) IN
           IF b # {} THEN b ELSE Walk(e, [st EXCEPT !.ph = "between", !.pops[st.cur + 1] = v.out, !.cur = @ + 1], k + 1)
      [] v.ev = "ret" /\ (Top(st, e.n) \/ st.ph \in {"asked", "stopped"}) ->
           LET s == IF st.ph \in {"asked", "stopped"} THEN st ELSE AtTop(st)
               b == C("returned-other-populations", v.pops = s.pops) \cup C("final-generation", v.gen = s.gen)
                    \cup C("wrong-number-of-generations", st.ph = "stopped" \/ s.gen = e.maxgen) IN
           IF b # {} THEN b ELSE Walk(e, [st EXCEPT !.ph = "end"], k + 1)
      [] OTHER -> {"unexpected-step:" \o v.ev \o "-after-" \o st.ph}
\* A real run: fitness calls must happen while the island they belong to is current, in order
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "run" -> Walk(e, [ph |-> "start", gen |-> 0, cur |-> 0, pops |-> <<>>, out |-> <<>>], 1)
                           \cup C("other-context-touched", ~e.foreign)
      [] e.kind = "lazy" ->
           LET want == [ k \in 1..(e.maxgen * e.n * e.popsize) |->
                           LET q == (k - 1) \div e.popsize IN <<(q % e.n) + 1, q % e.n, q \div e.n>> ] IN
           C("evaluations-not-in-island-order", e.calls = want) \cup C("sizes", e.sizes = [ k \in 1..e.n |-> e.popsize ])
           \cup C("members-belong-to-island", e.belong)
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
