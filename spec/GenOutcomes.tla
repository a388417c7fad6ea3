----------------------------- MODULE GenOutcomes -----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Outcomes, MaxLen
QOut == {0, 7, -1, -2}
VARIABLE d
Cases == { [hist |-> h] : h \in SeqsUpTo(Outcomes, MaxLen) \ {<<>>} }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
