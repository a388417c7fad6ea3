--------------------------- MODULE TraceRandomWalk ---------------------------
EXTENDS LeapCommon, TraceBase
VARIABLE i
\* steps: one record per pipeline run (inp/out: individuals in and out, pub: published count, len: trajectory is not visible yet)
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    C("length", Len(e.walk) = e.goal)
    \cup C("pipeline-runs", Len(e.steps) = e.goal - 1)
    \cup C("distinct", IsInj(e.walk))
    \cup C("first-from-representation", Len(e.walk) > 0 /\ e.walk[1] = e.drawn[1] /\ Len(e.drawn) = 1)
    \cup C("predecessor-only", \A k \in 1..Len(e.steps) : k <= Len(e.walk) /\ e.steps[k].inp = <<e.walk[k]>>)
    \cup C("successor-recorded", \A k \in 1..Len(e.steps) : k + 1 <= Len(e.walk) /\ e.steps[k].out = <<e.walk[k + 1]>>)
    \cup C("published-count", \A k \in 1..Len(e.steps) : e.steps[k].pub = k)
    \cup C("final-count", e.final = e.goal)
    \cup C("evaluations", Len(e.log) = e.goal)
    \cup C("evaluated-in-order", Len(e.log) # Len(e.walk) \/ e.log = e.gens)
    \cup C("fitness-of-genome", \A k \in 1..Len(e.fits) : e.fits[k] = e.truth[k])
    \cup C("earlier-changed", e.gens = e.gens0 /\ e.fits = e.fits0)
    \cup C("other-context", e.othersame)
    \cup C("problem", e.probs)
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
