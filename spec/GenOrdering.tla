---------------------------- MODULE GenOrdering ----------------------------
(* All small populations of fitness values, as inputs for the implementation. *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANT Dom, N
QDom == {NaN, 0, 1, 2}
TDom == {NaN, -1, 0, 1, 2}
VARIABLE d
Cases == { [pop |-> p, max |-> m] : p \in SeqsUpTo(Dom, N) \ {<<>>}, m \in BOOLEAN }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
