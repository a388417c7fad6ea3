----------------------------- MODULE GenSeeding -----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS L, MaxPop
VARIABLE d
Steps == { [op |-> "build", sols |-> s, n |-> 0] : s \in { <<>>, <<1>>, <<2, 3>> } } \cup { [op |-> "apply", sols |-> <<>>, n |-> k] : k \in {0, 2, MaxPop} }
         \cup { [op |-> "export", sols |-> <<>>, n |-> 0], [op |-> "reload", sols |-> <<>>, n |-> 0] }
Hist == { [what |-> "hist", h |-> h] : h \in SeqsUpTo(Steps, L) \ {<<>>} }
\* two initializers over the same seeds, used in any interleaving
Init2 == { [what |-> "inits", seeds |-> [ k \in 1..s |-> k ], use |-> u] : s \in 0..3, u \in SeqsUpTo({1, 2}, 6) \ {<<>>} }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Hist) \o SetToSeq(Init2))
Next == UNCHANGED d
=============================================================================
