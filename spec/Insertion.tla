------------------------------ MODULE Insertion ------------------------------
(* P16: bounded populations of the asynchronous steady-state algorithm.             *)
(* val: fitness per id (NaN = failed); viable: id -> BOOLEAN.                        *)
EXTENDS LeapCommon
WorstPositions(max, val, pop) == { k \in 1..Len(pop) : \A j \in 1..Len(pop) : ~Worse(max, val[pop[j]], val[pop[k]]) }
Replaces(max, val, viable, new, old) == ~viable[old] \/ Better(max, val[new], val[old])
Challenge(max, val, viable, pop, new, k) == IF Replaces(max, val, viable, new, pop[k]) THEN [pop EXCEPT ![k] = new] ELSE pop
Challengeable(rule, max, val, pop) == IF rule = "greedy" THEN WorstPositions(max, val, pop) ELSE 1..Len(pop)
Outcomes(rule, max, val, viable, pop, new, cap) ==
    IF Len(pop) < cap THEN { Append(pop, new) }
    ELSE { Challenge(max, val, viable, pop, new, k) : k \in Challengeable(rule, max, val, pop) }
------------------------------------------------------------------------------
CONSTANTS Vals, Cap, MaxArrivals
QVals == {NaN, 0, 1, 2}
VARIABLES mx, rule, val, pop
vars == <<mx, rule, val, pop>>

Init == mx \in BOOLEAN /\ rule \in {"greedy", "tournament"} /\ val = <<>> /\ pop = <<>>
Arrive == /\ Len(val) < MaxArrivals
          /\ \E v \in Vals :
               /\ val' = Append(val, v)
               /\ pop' \in Outcomes(rule, mx, val', [ x \in 1..Len(val') |-> val'[x] # NaN ], pop, Len(val'), Cap)
          /\ UNCHANGED <<mx, rule>>
Next == Arrive
Spec == Init /\ [][Next]_vars
Bounded == Len(pop) = Min2(Cap, Len(val))
NoDuplicates == IsInj(pop)
BestOf(p, v) == CHOOSE x \in { v[p[k]] : k \in 1..Len(p) } : \A k \in 1..Len(p) : ~Better(mx, v[p[k]], x)
BestNeverWorsens == [][pop # <<>> => ~Worse(mx, BestOf(pop', val'), BestOf(pop, val))]_vars
ViableNeverLostToFailed == [][\A x \in Elems(pop) \ Elems(pop') : val[x] # NaN => val'[Len(val')] # NaN]_vars
=============================================================================
