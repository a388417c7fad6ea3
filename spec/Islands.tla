------------------------------- MODULE Islands -------------------------------
(* P13: the multi-population loop.  Every generation visits the islands in index   *)
(* order; island i is replaced by the outcome of the shared pipeline followed by   *)
(* its own pipeline; the published list of subpopulations is the live one.         *)
EXTENDS LeapCommon
CONSTANTS N, MaxGen
\* pops[i]: the version of island i (0 = initial, evaluated); live: the published list
VARIABLES gen, cur, pops, live, phase, evald
vars == <<gen, cur, pops, live, phase, evald>>
Init == /\ gen = 0 /\ cur = 0 /\ pops = [ i \in 1..N |-> 0 ] /\ live = pops /\ phase = "top" /\ evald = [ i \in 1..N |-> 1 ]
Ask  == phase = "top" /\ gen < MaxGen /\ phase' = "asked" /\ UNCHANGED <<gen, cur, pops, live, evald>>
StopEarly == phase = "top" /\ phase' = "end" /\ UNCHANGED <<gen, cur, pops, live, evald>>
Process == /\ phase \in {"asked", "gen"} /\ cur < N
           /\ cur' = cur + 1
           /\ pops' = [pops EXCEPT ![cur + 1] = @ + 1] /\ live' = pops'
           /\ phase' = "gen" /\ UNCHANGED <<gen, evald>>
EndGen == phase = "gen" /\ cur = N /\ gen' = gen + 1 /\ cur' = 0 /\ phase' = "top" /\ UNCHANGED <<pops, live, evald>>
Finish == phase = "top" /\ gen >= MaxGen /\ phase' = "end" /\ UNCHANGED <<gen, cur, pops, live, evald>>
Next == Ask \/ StopEarly \/ Process \/ EndGen \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask \/ Process \/ EndGen \/ Finish)
InOrder == \A i \in 1..N : pops[i] = gen + (IF i <= cur THEN 1 ELSE 0)
LiveIsLive == live = pops
EvaluatedOnce == \A i \in 1..N : evald[i] = 1
ExactGenerations == phase = "end" => gen <= MaxGen /\ \A i \in 1..N : pops[i] = gen
Terminates == <>(phase = "end")
------------------------------------------------------------------------------
\* While island i is processed in the run state st, operators must see exactly this
Sees(st, i, v) == v.cur = i - 1 /\ v.gen = st.gen /\ v.live = st.pops
=============================================================================
