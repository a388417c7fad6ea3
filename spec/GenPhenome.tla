----------------------------- MODULE GenPhenome -----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANT L
VARIABLE d
Ops == {"assign", "inplace", "decode", "read", "set", "eval", "clone", "other"}   \* other: continue with the previous member of the family
Cases == { [ops |-> o] : o \in { q \in SeqsUpTo(Ops, L) : Len(q) = L } }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
