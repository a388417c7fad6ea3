-------------------------------- MODULE Coop --------------------------------
(* P14: cooperative evaluation.  A trial combines, in subpopulation order, the     *)
(* individual under evaluation at its own place with one picked member of every    *)
(* other subpopulation; the cooperative fitness is the mean over the trials.       *)
EXTENDS LeapCommon
IsCombination(subs, cur, x, c) ==
    /\ Len(c) = Len(subs) /\ c[cur] = x
    /\ \A s \in 1..Len(subs) : s # cur => c[s] \in Elems(subs[s])
CoopFitnessOK(vals, trials, fitTimesTrials) == Len(vals) = trials /\ fitTimesTrials = (IF NaN \in Elems(vals) THEN NaN ELSE SumSeq(vals))
------------------------------------------------------------------------------
CONSTANTS NSubs, SubSize, Trials
VARIABLES cur, done, vals, fit, touched
vars == <<cur, done, vals, fit, touched>>
Subs == [ s \in 1..NSubs |-> [ k \in 1..SubSize |-> 10 * s + k ] ]
Me == 99
F(c) == LET RECURSIVE H(_) H(k) == IF k = 0 THEN 0 ELSE (7 * H(k - 1) + c[k]) % 13 IN H(Len(c))     \* some order-sensitive underlying problem
Init == cur \in 1..NSubs /\ done = <<>> /\ vals = <<>> /\ fit = None /\ touched = {}
Trial == /\ Len(done) < Trials
         /\ \E c \in [1..NSubs -> {Me} \cup UNION { Elems(Subs[s]) : s \in 1..NSubs }] :
              /\ IsCombination(Subs, cur, Me, c)
              /\ done' = Append(done, c) /\ vals' = Append(vals, F(c))
         /\ UNCHANGED <<cur, fit, touched>>
Assign == Len(done) = Trials /\ fit = None /\ fit' = SumSeq(vals) /\ touched' = {Me} /\ UNCHANGED <<cur, done, vals>>
Next == Trial \/ Assign
Spec == Init /\ [][Next]_vars
OwnPlace == \A k \in 1..Len(done) : \A s \in 1..NSubs : (done[k][s] = Me) <=> (s = cur)
OnlyMeTouched == touched \subseteq {Me}
MeanOfExactlyTrials == fit # None => Len(vals) = Trials /\ CoopFitnessOK(vals, Trials, fit)
=============================================================================
