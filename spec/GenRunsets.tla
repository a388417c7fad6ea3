----------------------------- MODULE GenRunsets -----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Times, Vals, MaxRuns
VARIABLE d
\* a curve: values at some of the times (0 = no row)
Curves == { f \in [Times -> Vals \cup {-99}] : \E t \in Times : f[t] # -99 }
T1 == SetToSeq(Times)
AsRows(f) == SelectSeq([ k \in 1..Len(T1) |-> <<T1[k], f[T1[k]]>> ], LAMBDA p : p[2] # -99)
One == { <<[e |-> "a", c |-> AsRows(f)]>> : f \in Curves }
Two == { <<[e |-> "a", c |-> AsRows(f)], [e |-> x, c |-> AsRows(g)]>> : f \in Curves, g \in Curves, x \in {"a", "b"} }
Cases == IF MaxRuns = 1 THEN One ELSE One \cup Two
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq({ [runs |-> c] : c \in Cases }))
Next == UNCHANGED d
=============================================================================
