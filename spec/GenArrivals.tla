----------------------------- MODULE GenArrivals -----------------------------
(* Arrival histories: all fitness sequences up to a length, capacities, rules.     *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Vals, MaxLen, Caps
QVals == {NaN, 0, 1}
TVals == {NaN, 0, 1, 2}
VARIABLE d
Cases == { [arr |-> a, cap |-> c, max |-> m, rule |-> r] : a \in { q \in SeqsUpTo(Vals, MaxLen) : Len(q) = MaxLen }, c \in Caps, m \in BOOLEAN, r \in {"greedy", "tournament"} }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
