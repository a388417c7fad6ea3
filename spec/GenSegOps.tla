----------------------------- MODULE GenSegOps -----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS N, MaxLen
VARIABLE d
Ops == {"add", "addend", "copy", "copyend", "remove", "apply"}
Cases == { [ops |-> o, len |-> n] : o \in { p \in SeqsUpTo(Ops, N) : Len(p) = N }, n \in 1..MaxLen }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
