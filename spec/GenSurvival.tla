---------------------------- MODULE GenSurvival ----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Vals, N
QVals == {NaN, 0, 1}
TVals == {NaN, 0, 1, 2}
VARIABLE d
Pops == SeqsUpTo(Vals, N) \ {<<>>}
Cases == { [off |-> o, par |-> p, max |-> m] : o \in Pops, p \in Pops, m \in BOOLEAN }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
