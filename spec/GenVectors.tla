----------------------------- MODULE GenVectors -----------------------------
(* All sequences of fitness vectors of the given length, with directions.          *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS NObj, Vals, Len_
VARIABLE d
Vecs == [1..NObj -> Vals]
Cases == { [vecs |-> v, dirs |-> b] : v \in { q \in SeqsUpTo(Vecs, Len_) : Len(q) = Len_ }, b \in [1..NObj -> BOOLEAN] }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
