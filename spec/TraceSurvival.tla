---------------------------- MODULE TraceSurvival ----------------------------
(* Offspring are numbered 1..no and parents no+1..no+np; 0 stands for a stranger. *)
EXTENDS LeapCommon, TraceBase
S == INSTANCE Survival WITH Vals <- {}, NO <- 0, NP <- 0, mx <- TRUE, val <- <<>>, pop <- <<>>, next <- 0
VARIABLE i
Val(e) == e.off \o e.par
Off(e) == 1..Len(e.off)
Par(e) == (Len(e.off) + 1)..(Len(e.off) + Len(e.par))
Callers(e) == C("caller-offspring-list-changed", e.offlist = [ k \in 1..Len(e.off) |-> k ])
              \cup C("caller-parent-list-changed", e.parlist = [ k \in 1..Len(e.par) |-> Len(e.off) + k ])
              \cup C("individuals-changed", e.untouched)
Members(e) == C("stranger-or-duplicate", IsInj(e.kept) /\ Elems(e.kept) \subseteq Off(e) \cup Par(e))
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "truncation" ->
            LET P == IF e.withpar THEN Off(e) \cup Par(e) ELSE Off(e) IN
            Callers(e) \cup Members(e)
            \cup C("truncation-size", Len(e.kept) = Min2(e.size, Cardinality(P)))
            \cup C("truncation-best", S!IsTruncation(e.max, Val(e), P, e.size, e.kept))
      [] e.kind = "elitist" ->
            Callers(e) \cup Members(e) \cup C("elitist-size", Len(e.kept) = Len(e.off))
            \cup C("elitist-best", S!IsElitistFast(e.max, Val(e), Off(e), Par(e), e.k, e.kept))
      [] e.kind = "insertion" ->
            Callers(e) \cup Members(e) \cup C("insertion-size", Len(e.kept) = Len(e.par))
            \cup C("insertion-outcome", IF Len(e.off) * Len(e.par) > 20 THEN S!MayInsert(e.max, Val(e), [ k \in 1..Len(e.par) |-> Len(e.off) + k ], [ k \in 1..Len(e.off) |-> k ], e.kept) ELSE e.kept \in S!Insertions(e.max, Val(e), { [ k \in 1..Len(e.par) |-> Len(e.off) + k ] }, [ k \in 1..Len(e.off) |-> k ]))
      [] e.kind = "insertion-slots" ->     \* one clearly better child: how often each slot was replaced
            UNION { C("slot-not-uniform", FreqOK(e.hits[s], e.n, 1, e.np, 60)) : s \in 1..e.np }
            \cup C("slot-total", SumSeq(e.hits) = e.n)
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
