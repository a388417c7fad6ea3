---------------------------- MODULE GenLayouts ----------------------------
(* All segment layouts up to MaxSegs segments of at most MaxLen bits, with every genome of that length. *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS MaxSegs, MaxLen, MaxTotal
VARIABLE d
Layouts == { l \in SeqsUpTo(1..MaxLen, MaxSegs) : l # <<>> /\ SumSeq(l) <= MaxTotal }
Cases == { [lens |-> l, total |-> SumSeq(l), genomes |-> SetToSeq([1..SumSeq(l) -> {0, 1}])] : l \in Layouts }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
