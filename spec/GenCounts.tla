------------------------------ MODULE GenCounts ------------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Total, MaxKeys
VARIABLE d
Tables(k) == { t \in [1..k -> 0..Total] : SumSeq(t) = Total }
Cases == UNION { { [o |-> o, e |-> x] : o \in Tables(k), x \in { y \in Tables(k) : \A q \in 1..k : y[q] % 4 = 0 } } : k \in 1..MaxKeys }
Ok == { c \in Cases : \A q \in 1..Len(c.o) : c.o[q] + c.e[q] > 0 }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Ok))
Next == UNCHANGED d
=============================================================================
