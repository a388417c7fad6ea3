----------------------------- MODULE TracePareto -----------------------------
EXTENDS LeapCommon, TraceBase
P == INSTANCE Pareto WITH NObj <- 1, Vals <- {}, Cap <- 0, MaxArrivals <- 0, dirs <- <<>>, fit <- <<>>, S <- {}
VARIABLE i
RankOK(e, S, rk) == IF Cardinality(S) > 60 THEN P!IsRanking(e.dirs, e.fit, S, rk) ELSE LET want == P!Ranks(e.dirs, e.fit, S) IN \A x \in S : rk[x] = want[x]
DistOK(e, S, rk, ds) == \A r \in { rk[x] : x \in S } : P!IsDistance(e.dirs, e.fit, P!Front(rk, S, r), ds)
\* NSGA-II: states top / asked / surv / stopped / end
RECURSIVE Walk(_, _, _)
Walk(e, st, k) ==
    IF k > Len(e.evs) THEN C("run-did-not-return", st.ph = "end")
    ELSE LET v == e.evs[k]
             g == IF st.ph = "surv" THEN st.gen + 1 ELSE st.gen
             S == Elems(st.par) \cup Elems(st.off)
             seen == IF st.ph # "surv" THEN C("population-changed-between-steps", v.pop = st.par)
                     ELSE C("population-size", Len(v.pop) = Len(st.par) \/ Len(v.pop) = Cardinality(S))
                          \cup C("duplicated-or-invented", IsInj(v.pop) /\ Elems(v.pop) \subseteq S)
                          \cup C("ranks", \A x \in S : x <= Len(v.rk) /\ RankOK(e, S, v.rk))
                          \cup C("crowding-distances", ~RankOK(e, S, v.rk) \/ DistOK(e, S, v.rk, v.ds))
                          \cup C("not-the-best-fronts-and-least-crowded", P!IsSurvival(v.rk, v.ds, S, Min2(Len(st.par), Cardinality(S)), Elems(v.pop)))
         IN
         CASE v.ev = "stop" /\ st.ph \in {"top", "surv"} ->
                LET b == seen \cup C("published-generation", v.gen = g) IN
                IF b # {} THEN b ELSE Walk(e, [st EXCEPT !.ph = IF v.ans THEN "stopped" ELSE "asked", !.gen = g, !.par = v.pop], k + 1)
           [] v.ev = "pipe" /\ st.ph = "asked" ->
                LET b == C("population-changed-between-steps", v.pop = st.par) \cup C("published-generation", v.gen = st.gen)
                         \cup C("ran-past-maximum", st.gen < e.maxgen) IN
                IF b # {} THEN b ELSE Walk(e, [st EXCEPT !.ph = "surv", !.off = v.off], k + 1)
           [] v.ev = "ret" /\ st.ph \in {"top", "surv", "asked", "stopped"} ->
                LET b == seen \cup C("final-generation", v.gen = g)
                         \cup C("wrong-number-of-generations", st.ph = "stopped" \/ g = Max2(e.maxgen, e.startgen)) IN
                IF b # {} THEN b ELSE Walk(e, [st EXCEPT !.ph = "end"], k + 1)
           [] OTHER -> {"unexpected-step:" \o v.ev \o "-after-" \o st.ph}
EnluStep(e, k) ==
    LET old == IF k = 1 THEN {} ELSE Elems(e.steps[k - 1].pop)  v == e.steps[k]  new == Elems(v.pop) IN
    C("size", Len(v.pop) = Min2(e.cap, Cardinality(old) + 1))
    \cup C("lost-or-duplicated", IsInj(v.pop) /\ new \in P!AfterInsert(e.dirs, e.fit, old, v.id, e.cap))
    \cup C("layers-are-not-the-fronts", \A x \in new : x \in 1..Len(v.rk) /\ RankOK(e, new, v.rk))
    \cup C("crowding-distances", ~RankOK(e, new, v.rk) \/ DistOK(e, new, v.rk, v.ds))
Verdict(e) ==
    IF e.kind = "skipped" THEN {}
    ELSE IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "cmp" ->
           LET gt == P!Dominates(e.dirs, e.a, e.b)  lt == P!Dominates(e.dirs, e.b, e.a)  eq == P!Equivalent(e.dirs, e.a, e.b) IN
           C("better", e.gt = gt) \cup C("worse", e.lt = lt) \cup C("equivalent", e.eq = eq) \cup C("differs", e.ne = ~eq)
           \cup C("at-most", e.le = ~gt) \cup C("at-least", e.ge = ~lt) \cup C("fitness-touched", e.same)
      [] e.kind = "rank" ->
           C("lost-or-invented", SameBag(e.out, [ k \in 1..Len(e.fit) |-> k ]))
           \cup C("ranks", RankOK(e, 1..Len(e.fit), e.rk))
           \cup C("callers-lists-changed", e.same)
      \* an individual that is there more than once counts once
      [] e.kind = "repeats" ->
           C("lost-or-invented", SameBag(e.out, e.given))
           \cup C("ranks", RankOK(e, Elems(e.given), e.rk))
           \cup C("callers-lists-changed", e.same)
      [] e.kind = "crowd" ->
           C("lost-or-invented", SameBag(e.out, [ k \in 1..Len(e.fit) |-> k ]))
           \cup C("crowding-distances", DistOK(e, 1..Len(e.fit), e.rk, e.ds))
           \cup C("callers-lists-changed", e.same)
      [] e.kind = "sorted" ->
           C("lost-or-invented", SameBag(e.out, [ k \in 1..Len(e.rk) |-> k ]))
           \cup C("not-sorted", \A k \in 1..(Len(e.out) - 1) : LET a == e.out[k]  b == e.out[k + 1] IN e.rk[a] < e.rk[b] \/ (e.rk[a] = e.rk[b] /\ e.ds[a] >= e.ds[b]))
      [] e.kind = "nsga" -> Walk(e, [ph |-> "top", gen |-> e.startgen, par |-> e.init, off |-> <<>>], 1)
                            \cup C("initial-size", Len(e.init) = e.popsize) \cup C("evaluations", e.calls = e.wantcalls)
      [] e.kind = "enlu" -> UNION { EnluStep(e, k) : k \in 1..Len(e.steps) }
           \cup C("returned-population", Elems(e.ret) = Elems(e.steps[Len(e.steps)].pop) /\ Len(e.ret) = Len(e.steps[Len(e.steps)].pop))
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
