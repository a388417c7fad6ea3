------------------------------- MODULE GenCoop -------------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS MaxSubs, Sizes, TrialSet, Selectors, Forms, Inds
VARIABLE d
Runs == UNION { { [sizes |-> z, cur |-> c, trials |-> t, sel |-> s, form |-> f, log |-> l, inds |-> q] :
              z \in { y \in SeqsUpTo(Sizes, MaxSubs) : Len(y) = n }, c \in 1..n, t \in TrialSet, s \in Selectors, f \in Forms, l \in BOOLEAN, q \in Inds } : n \in 1..MaxSubs }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Runs))
Next == UNCHANGED d
=============================================================================
