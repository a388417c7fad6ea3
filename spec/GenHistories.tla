---------------------------- MODULE GenHistories ----------------------------
(* Histories of populations: all short ones over few values, and all ones of length L over singletons. *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Vals, N, L
QVals == {0, 1, NaN}
TVals == {0, 1, 2, NaN}
VARIABLE d
Pops == SeqsUpTo(Vals, N) \ {<<>>}
Singles == { <<v>> : v \in Vals }
Hists == { <<a, b>> : a \in Pops, b \in Pops } \cup [1..L -> Singles]
Cases == { [pops |-> h, max |-> m] : h \in Hists, m \in BOOLEAN }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
