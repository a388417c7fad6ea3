--------------------------- MODULE GenTopologies ---------------------------
(* Every directed topology on 1..N islands, with gaps.                                     *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS N, Gaps
VARIABLE d
Nodes(n) == 0..(n - 1)
Tops(n) == [Nodes(n) -> SUBSET Nodes(n)]
Cases == UNION { { [n |-> n, nb |-> [ x \in 1..n |-> SetToSeq(f[x - 1]) ], gap |-> g] : f \in Tops(n), g \in Gaps } : n \in 1..N }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
