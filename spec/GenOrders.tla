------------------------------ MODULE GenOrders ------------------------------
(* Every completion order of n evaluations with every set of failing ones.         *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxN
VARIABLE d
Perms(n) == { p \in [1..n -> 1..n] : IsInj(p) }
Cases == UNION { { [n |-> n, order |-> p, bad |-> SetToSeq(b)] : p \in Perms(n), b \in SUBSET (1..n) } : n \in 0..MaxN }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
