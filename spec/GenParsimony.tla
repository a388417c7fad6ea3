---------------------------- MODULE GenParsimony ----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Lens, N
VARIABLE d
Inds == [f : {-1, 0, 2}, n : Lens]
Pops == { p \in SeqsUpTo(Inds, N) : Len(p) >= 2 }
Cases == { [pop |-> p, max |-> m, key |-> k] : p \in Pops, m \in BOOLEAN, k \in {"lex", "koza"} }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
