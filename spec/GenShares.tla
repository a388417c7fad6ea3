---------------------------- MODULE GenShares ----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Vals, N, MaxPts
VARIABLE d
Cases == { [vals |-> v, n |-> n] : v \in SeqsUpTo(Vals, N) \ {<<>>}, n \in 1..MaxPts }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
