------------------------------ MODULE Mutation ------------------------------
(* P10: gene-wise mutation.  A mutator is a domain per locus, a set of values a   *)
(* selected gene may take, and a selection probability pn/pd.                     *)
EXTENDS LeapCommon

Flip(b) == 1 - b
\* values a selected gene g with bounds [lo, hi] may take under each mutator
BitOut(g) == {Flip(g)}
IntOut(lo, hi) == lo..hi
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

\* all genomes a mutation may produce (selected set arbitrary)
BitResults(g) == { h \in [1..Len(g) -> {0, 1}] : TRUE }
IntResults(g, bounds) == { h \in [1..Len(g) -> Int] : \A j \in 1..Len(g) : h[j] = g[j] \/ h[j] \in IntOut(bounds[j][1], bounds[j][2]) }
InInt(g, h, bounds) == Len(g) = Len(h) /\ \A j \in 1..Len(g) : h[j] = g[j] \/ h[j] \in IntOut(bounds[j][1], bounds[j][2])
InBounds(h, bounds) == \A j \in 1..Len(h) : bounds[j][1] <= h[j] /\ h[j] <= bounds[j][2]

\* probability (over den pd*w) that a random-integer-mutated gene ends up as v
IntNum(g, lo, hi, pn, pd, v) == LET w == hi - lo + 1 IN pn * (IF v \in lo..hi THEN 1 ELSE 0) + (IF v = g THEN (pd - pn) * w ELSE 0)
----------------------------------------------------------------------------
(* Model: one locus after another is selected or not and then mutated.            *)
CONSTANTS Len_, Lo, Hi, MaxSteps
VARIABLES kind, g0, g, j
vars == <<kind, g0, g, j>>
Bounds == [ x \in 1..Len_ |-> <<Lo, Hi>> ]
Init == /\ kind \in {"bit", "int", "noise"}
        /\ g0 \in (IF kind = "bit" THEN [1..Len_ -> {0, 1}] ELSE [1..Len_ -> Lo..Hi])
        /\ g = g0 /\ j = 1
Skip == j <= Len_ /\ j' = j + 1 /\ UNCHANGED <<kind, g0, g>>
Mutate == /\ j <= Len_ /\ j' = j + 1 /\ UNCHANGED <<kind, g0>>
          /\ \E v \in (IF kind = "bit" THEN BitOut(g[j]) ELSE IF kind = "int" THEN IntOut(Lo, Hi) ELSE { Clip(g[j] + d, Lo, Hi) : d \in -3..3 }) :
                g' = [g EXCEPT ![j] = v]
Next == Skip \/ Mutate
Spec == Init /\ [][Next]_vars
Domain == IF kind = "bit" THEN \A x \in 1..Len_ : g[x] \in {0, 1} ELSE InBounds(g, Bounds)
Untouched == \A x \in j..Len_ : g[x] = g0[x]
NumLaw == LET w == Hi - Lo + 1 IN \A v \in Lo..Hi : kind = "int" => \* probabilities add up
          SumSeq([ x \in 1..w |-> IntNum(g0[1], Lo, Hi, 1, 3, Lo + x - 1) ]) = 3 * w
=============================================================================
