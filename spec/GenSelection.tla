---------------------------- MODULE GenSelection ----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Vals, N, K
QVals == {NaN, 0, 1}
TVals == {NaN, 0, 1, 2}
VARIABLE d
Cases == { [pop |-> p, max |-> m, k |-> k] : p \in SeqsUpTo(Vals, N) \ {<<>>}, m \in BOOLEAN, k \in 1..K }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
