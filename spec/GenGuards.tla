------------------------------ MODULE GenGuards ------------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
VARIABLE d
G == INSTANCE Guards WITH Steps <- 0, Used <- {}, done <- 0, world <- 0, shadow <- 0
RECURSIVE All(_)
All(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN
          SetToSeq({ [api |-> x, a |-> v] : v \in G!Domain(x) }) \o All(S \ {x})
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, All(G!Apis))
Next == UNCHANGED d
=============================================================================
