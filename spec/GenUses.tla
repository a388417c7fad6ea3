------------------------------ MODULE GenUses ------------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS N, P
VARIABLE d
Cases == { [uses |-> u, persist |-> b] : u \in SeqsUpTo(0..P, N) \ {<<>>}, b \in BOOLEAN }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
