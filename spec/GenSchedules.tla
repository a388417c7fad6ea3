---------------------------- MODULE GenSchedules ----------------------------
(* All behaviours of SteadyState within the bounds, as schedules: which pending      *)
(* evaluation (by position) completes next, and whether it fails.                    *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS MInit, MMax, MM, MaxFails
VARIABLE d
S == INSTANCE SteadyState WITH MCap <- {1}, cfg <- 0, st <- 0
RECURSIVE Runs(_, _)
Runs(cfg, st) ==
    IF S!Over(st) THEN {<<>>}
    ELSE UNION { { <<[k |-> k, f |-> f]>> \o r : r \in Runs(cfg, S!Complete(cfg, st, k, f)) } :
                   k \in 1..Len(st.pend), f \in IF st.fails < MaxFails THEN BOOLEAN ELSE {FALSE} }
Cfgs == [init : MInit, cap : {2}, max : MMax, m : MM, count : BOOLEAN]
Cases == UNION { { [cfg |-> c, sched |-> r] : r \in Runs(c, S!Start(c)) } : c \in Cfgs }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases))
Next == UNCHANGED d
=============================================================================
