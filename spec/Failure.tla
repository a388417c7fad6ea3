------------------------------- MODULE Failure -------------------------------
(* P18: evaluation of failure-tolerant individuals.  An outcome is a value or a     *)
(* failure; the marks always tell the last outcome, the count tells all failures.   *)
EXTENDS LeapCommon
IsFail(o) == o < 0                       \* outcome codes: >= 0 a value, < 0 an exception (-k is the k-th kind)
Marks(o) == IF IsFail(o) THEN [fit |-> NaN, viable |-> FALSE, exc |-> o] ELSE [fit |-> o, viable |-> TRUE, exc |-> 0]
Failures(h) == Cardinality({ k \in 1..Len(h) : IsFail(h[k]) })
------------------------------------------------------------------------------
CONSTANTS Outcomes, MaxLen
QOut == {0, 1, -1, -2}
VARIABLES hist, marks, count, propagated
vars == <<hist, marks, count, propagated>>
Init == hist = <<>> /\ marks = [fit |-> None, viable |-> FALSE, exc |-> 0] /\ count = 0 /\ propagated = FALSE
Eval == /\ Len(hist) < MaxLen
        /\ \E o \in Outcomes : hist' = Append(hist, o) /\ marks' = Marks(o) /\ count' = count + (IF IsFail(o) THEN 1 ELSE 0)
        /\ UNCHANGED propagated
Next == Eval
Spec == Init /\ [][Next]_vars
Contained == ~propagated
LastOutcomeOnly == hist # <<>> => marks = Marks(hist[Len(hist)])
ViableIffNumber == hist # <<>> => (marks.viable <=> marks.fit # NaN) /\ (marks.viable <=> marks.exc = 0)
Counted == count = Failures(hist)
\* the order of P01 makes every failed individual lose against every viable one, in both directions
FailedLoses == \A mx \in BOOLEAN : \A v \in Outcomes : ~IsFail(v) => Worse(mx, NaN, v) /\ ~Better(mx, NaN, v)
=============================================================================
