----------------------------- MODULE GenIslands -----------------------------
(* Configurations and stop scripts of multi-population runs.                      *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Ns, Gens, PopSizes
VARIABLE d
Runs == { [n |-> n, maxgen |-> g, popsize |-> p, own |-> o, reps |-> r, probs |-> q, stop |-> s] :
            n \in Ns, g \in Gens, p \in PopSizes, o \in BOOLEAN, r \in BOOLEAN, q \in BOOLEAN, s \in {99} \cup Gens }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Runs))
Next == UNCHANGED d
=============================================================================
