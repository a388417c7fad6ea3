----------------------------- MODULE GenInitial -----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS N, L
VARIABLE d
B == { <<0, 1>>, <<-2, 0>>, <<3, 3>>, <<5, 9>> }
Cases == { [what |-> "pop", n |-> n, cls |-> c, via |-> v, rep |-> r] : n \in 0..N, c \in {"Individual", "RobustIndividual", "DistributedIndividual", "WholeEvaluatedIndividual", "own"}, v \in {"class", "representation", "single"}, r \in {"int", "binary", "real", "list"} }
         \cup { [what |-> "int", bounds |-> b] : b \in SeqsUpTo(B, L) \ {<<>>} }
         \cup { [what |-> "real", bounds |-> b] : b \in SeqsUpTo(B, L) \ {<<>>} }
         \cup { [what |-> "binary", len |-> k] : k \in 1..5 }
         \cup { [what |-> "segmented", len |-> k, vary |-> v] : k \in 0..4, v \in BOOLEAN }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
