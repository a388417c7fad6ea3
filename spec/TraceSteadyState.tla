-------------------------- MODULE TraceSteadyState --------------------------
(* cfg, and per completed evaluation a step                                        *)
(*  [id, f, births (published before), probes, inserts, breeds: <<[births, pop, fresh, ins]>>, subs] *)
EXTENDS LeapCommon, TraceBase
S == INSTANCE SteadyState WITH MInit <- {}, MCap <- {}, MMax <- {}, MM <- {}, MaxFails <- 0, cfg <- 0, st <- 0
VARIABLE i
PosOf(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
RECURSIVE Walk(_, _, _)
Walk(e, st, k) ==
    IF k > Len(e.steps)
    THEN C("evaluations-left-behind", S!Over(st)) \cup C("final-birth-count", e.births = st.births)
    ELSE LET v == e.steps[k] IN
      IF v.id \notin Elems(st.pend) THEN {"completed-twice-or-never-submitted"}
      ELSE LET j == PosOf(st.pend, v.id)
               nx == S!Complete(e.cfg, st, j, v.f)
               new == Elems(nx.pend) \ Elems(st.pend)
               b == C("published-birth-count", ~e.exact \/ v.births = st.births)
                    \cup C("probe", ~e.probed \/ v.probes = <<v.id>>)
                    \cup C("inserter", v.inserts = <<v.id>>)
                    \cup C("bred-when-it-should-not", S!Breeds(e.cfg, st, v.f) \/ v.breeds = <<>>)
                    \cup C("did-not-breed", ~S!Breeds(e.cfg, st, v.f) \/ Len(v.breeds) = 1)
                    \cup C("birth-count-seen-while-breeding", \A q \in 1..Len(v.breeds) : v.breeds[q].births = S!Births1(e.cfg, st, v.f))
                    \cup C("bred-from-unevaluated", \A q \in 1..Len(v.breeds) : v.breeds[q].fresh /\ Elems(v.breeds[q].pop) \subseteq Elems(nx.done))
                    \cup C("bred-before-insertion", \A q \in 1..Len(v.breeds) : v.breeds[q].ins = 1)
                    \cup C("submitted", ~e.exact \/ SameBag(v.subs, [ q \in 1..Cardinality(new) |-> e.cfg.init + st.created + q ]))
           IN IF b # {} THEN b ELSE Walk(e, nx, k + 1)
Verdict(e) ==
    IF e.kind = "skipped" THEN {}
    ELSE IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "async" ->
           C("initial-submissions", ~e.exact \/ e.first = [ k \in 1..e.cfg.init |-> k ])
           \cup Walk(e, S!Start(e.cfg), 1)
           \cup C("evaluated-exactly-once", IsInj(e.calls) /\ Len(e.calls) = Len(e.steps))
           \cup C("returned-population", e.popok)
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
