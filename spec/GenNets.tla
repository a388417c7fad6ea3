------------------------------- MODULE GenNets -------------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS MaxWidth, MaxLayers, MaxEvents, Keys
VARIABLE d
Shapes == { s \in SeqsUpTo(0..MaxWidth, MaxLayers) : Len(SelectSeq(s, LAMBDA n : n # 0)) >= 2 }
Nets == { [shape |-> s, act |-> a] : s \in Shapes, a \in {"id", "relu"} }
Events == { [do |-> e, key |-> k] : e \in {"press", "release"}, k \in Keys }
Runs == { [events |-> es, map |-> m] : es \in SeqsUpTo(Events, MaxEvents), m \in [Keys -> 1..2] }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Nets) \o SetToSeq(Runs))
Next == UNCHANGED d
=============================================================================
