------------------------------ MODULE GenRules ------------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Vals, NRules, Lo2
VARIABLE d
Conds == { <<a, b>> : a \in Vals, b \in Vals }
One == { [nin |-> 1, conds |-> [ k \in 1..Len(r) |-> <<r[k]>> ]] : r \in SeqsUpTo(Conds, NRules) \ {<<>>} }
Two == { [nin |-> 2, conds |-> r] : r \in [1..2 -> { <<x, y>> : x \in Lo2 \X Lo2, y \in Lo2 \X Lo2 }] }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(One) \o SetToSeq(Two))
Next == UNCHANGED d
=============================================================================
