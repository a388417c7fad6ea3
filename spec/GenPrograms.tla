---------------------------- MODULE GenPrograms ----------------------------
(* Every program of at most N abstract operations on individuals 1..2 (initial) *)
(* and "last" (0), as driver input.                                              *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS N, OpNames
VARIABLE d
Targets(o) == IF o \in {"geval", "popeval", "cross"} THEN {0} ELSE {0, 1}
Steps == UNION { { [op |-> o, t |-> t] : t \in Targets(o) } : o \in OpNames }
Progs == { p \in SeqsUpTo(Steps, N) : Len(p) = N }
Init == d = 0 /\ LET S == SetToSeq({ [prog |-> p] : p \in Progs }) IN ndJsonSerialize(IOEnv.GEN_FILE, S)
Next == UNCHANGED d
=============================================================================
