---------------------------- MODULE GenCounters ----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS L, PL, NInd
VARIABLE d
Deltas == {1, 2, 5, -1}
Counter == { [what |-> "births", start |-> s, ops |-> o] : s \in {0, 7, -3}, o \in SeqsUpTo(Deltas, L) }
           \cup { [what |-> "generation", start |-> s, ops |-> [ k \in 1..n |-> 1 ]] : s \in {0, 7, -3}, n \in 0..8 }
Asked == { [what |-> "step", g |-> g, b |-> b, ug |-> ug, ub |-> ub] : g \in BOOLEAN, b \in BOOLEAN, ug \in {"N", "T", "F"}, ub \in {"N", "T", "F"} }
\* a branding pass: a group of individuals handed over in one go, as population or iterator
Groups == { s \in SeqsUpTo(1..NInd, 2) : s # <<>> }
Passes == { p \in SeqsUpTo(Groups, PL) : p # <<>> }
Brand == { [what |-> "brand", passes |-> p, via |-> v] : p \in Passes, v \in {"pop", "iter", "mixed", "popiter"} }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Counter) \o SetToSeq(Asked) \o SetToSeq(Brand))
Next == UNCHANGED d
=============================================================================
