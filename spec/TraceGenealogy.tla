--------------------------- MODULE TraceGenealogy ---------------------------
(* A case is a program: the store after creation (snap0) and, per step, the     *)
(* operation, the individuals fed in (inn), those that came out (out), the keys  *)
(* evaluated by the problem (log) and the whole store afterwards (snap).          *)
EXTENDS LeapCommon, TraceBase
G == INSTANCE Genealogy WITH Genomes <- {}, MaxInds <- 0, store <- <<>>, act <- <<>>
VARIABLE i
Norm(r) == [r EXCEPT !.par = { r.par[k] : k \in 1..Len(r.par) }]
NormS(s) == [ k \in 1..Len(s) |-> Norm(s[k]) ]
Bystanders(a, b, touched) == UNION { IF k \in touched THEN {} ELSE G!Same(a[k], b[k]) : k \in 1..Len(a) }
UniqueIds(b) == C("identifiers-unique", IsInj([ k \in 1..Len(b) |-> b[k].uu ]) /\ IsInj([ k \in 1..Len(b) |-> b[k].bid ]))
StepVerdict(a, s) ==
    LET b == NormS(s.snap)
        inn == Elems(s.inn)
    IN  UniqueIds(b) \cup
        CASE s.op = "clone" ->
                C("clone-is-new", Len(b) = Len(a) + Len(s.inn) /\ s.out = [ k \in 1..Len(s.inn) |-> Len(a) + k ])
                \cup Bystanders(a, b, {})
                \cup (IF Len(b) = Len(a) + Len(s.inn) THEN UNION { G!IsClone(a[s.inn[k]], b[Len(a) + k]) : k \in 1..Len(s.inn) } ELSE {})
                \cup C("clone-evaluates-nothing", s.log = <<>>)
          [] s.op = "poke" ->   \* the caller overwrites this individual's genome storage in place
                Bystanders(a, b, inn)
          [] s.op \in {"vary", "cross"} ->
                C("same-individuals", s.out = s.inn /\ Len(b) = Len(a)) \cup Bystanders(a, b, inn)
                \cup UNION { G!IsVaried(a[k], b[k]) : k \in inn }
                \cup C("lineage-of-inputs", \A k \in inn : a[k].par \subseteq b[k].par
                                                /\ b[k].par \subseteq UNION { a[m].par : m \in inn })
                \cup C("variation-evaluates-nothing", s.log = <<>>)
          [] s.op = "eval" ->
                C("same-individuals", s.out = s.inn /\ Len(b) = Len(a)) \cup Bystanders(a, b, inn)
                \cup UNION { G!IsEvaluated(a[k], b[k]) : k \in inn }
                \cup C("each-evaluated-once-in-order", s.log = [ k \in 1..Len(s.inn) |-> b[s.inn[k]].p ])
                \cup C("chunk-size", \A k \in 1..Len(s.chunks) : s.chunks[k] <= s.chunkmax)
          [] OTHER -> {"unknown-operation"}
RECURSIVE Steps(_, _, _)
Steps(a, steps, k) ==
    IF k > Len(steps) THEN {}
    ELSE StepVerdict(a, steps[k]) \cup Steps(NormS(steps[k].snap), steps, k + 1)
Verdict(e) ==
    IF e.exc # "" THEN {"raised"}
    ELSE UniqueIds(NormS(e.snap0)) \cup Steps(NormS(e.snap0), e.steps, 1)
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
