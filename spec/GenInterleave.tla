--------------------------- MODULE GenInterleave ---------------------------
(* schedules of one operator: 0 starts a new use, u > 0 pulls from the u-th use *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS N, U
VARIABLE d
Legal(s) == \A k \in 1..Len(s) : LET n == Count(SubSeq(s, 1, k), 0) IN n <= U /\ s[k] <= n
Cases == { [inter |-> s, persist |-> b] : s \in { t \in SeqsUpTo(0..U, N) \ {<<>>} : Legal(t) }, b \in BOOLEAN }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
