---------------------------- MODULE ParallelEval ----------------------------
(* P17: a population handed to a cluster.  Workers finish in any order and any     *)
(* evaluation may fail; the result holds, at every position, the input of that      *)
(* position with the outcome serial evaluation gives.                               *)
EXTENDS LeapCommon
Serial(vals, bad) == [ k \in 1..Len(vals) |-> IF k \in bad THEN NaN ELSE vals[k] ]
------------------------------------------------------------------------------
CONSTANTS N, MVals
VARIABLES vals, bad, out, pend, phase
vars == <<vals, bad, out, pend, phase>>
Init == /\ vals \in [1..N -> MVals] /\ bad \in SUBSET (1..N)
        /\ out = [ k \in 1..N |-> [id |-> 0, fit |-> None] ] /\ pend = 1..N /\ phase = "run"
Finish(k) == /\ k \in pend /\ pend' = pend \ {k}
             /\ out' = [out EXCEPT ![k] = [id |-> k, fit |-> IF k \in bad THEN NaN ELSE vals[k]]]
             /\ UNCHANGED <<vals, bad, phase>>
Gather == pend = {} /\ phase = "run" /\ phase' = "done" /\ UNCHANGED <<vals, bad, out, pend>>
Next == (\E k \in 1..N : Finish(k)) \/ Gather
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SameAsSerial == phase = "done" => \A k \in 1..N : out[k] = [id |-> k, fit |-> Serial(vals, bad)[k]]
NothingTwice == \A k \in pend : out[k].id = 0
Terminates == <>(phase = "done")
=============================================================================
