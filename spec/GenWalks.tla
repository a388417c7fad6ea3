------------------------------ MODULE GenWalks ------------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Goals
VARIABLE d
Ops == {"mutate", "twice", "xprobe", "reset"}
Cases == { [goal |-> g, ops |-> o, own |-> w, start |-> s, max |-> m] : g \in Goals, o \in Ops, w \in BOOLEAN, s \in {0, 3}, m \in BOOLEAN }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
