----------------------------- MODULE GenDesigns -----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Coords, MaxSize
VARIABLE d
Pts == { <<a, b>> : a \in Coords, b \in Coords }
Designs == { D \in SUBSET Pts : Cardinality(D) >= 3 /\ Cardinality(D) <= MaxSize }
Cases == { [design |-> SetToSeq(D), land |-> l] : D \in Designs, l \in {"linear", "convex", "concave", "step"} }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
