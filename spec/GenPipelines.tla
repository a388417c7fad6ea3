---------------------------- MODULE GenPipelines ----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS L, Pools
VARIABLE d
Names == {"clone", "eval", "vary", "look", "pair"}
Flow == { [what |-> "flow", st |-> s, n |-> p] : s \in SeqsUpTo(Names, L), p \in Pools }
Vals == {"list", "gen", "listiter", "map", "tuple", "curry", "none", "array", "str", "int"}
Deco == { [what |-> "deco", ik |-> k[1], ok |-> k[2], v |-> v, r |-> r] : k \in {"list", "iter"} \X {"list", "iter"}, v \in Vals, r \in Vals }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Flow) \o SetToSeq(Deco))
Next == UNCHANGED d
=============================================================================
