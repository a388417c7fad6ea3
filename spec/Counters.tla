------------------------------ MODULE Counters ------------------------------
(* P23: generation/birth counters with their published copy, the current-step query *)
(* and birth branding.                                                               *)
EXTENDS LeapCommon
\* the value of a counter after a history of deltas
RECURSIVE After(_, _)
After(start, ds) == IF ds = <<>> THEN start ELSE After(start, SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]
\* get_step: what is present in the context, what is asked ("T", "F" or "N" for unspecified)
Ambiguous(hasG, hasB, ug, ub) ==
    IF ug = "N" /\ ub = "N" THEN hasG = hasB
    ELSE (ug = "T") = (ub = "T")
Missing(hasG, hasB, ug, ub) == (ug = "T" /\ ~hasG) \/ (ub = "T" /\ ~hasB)
StepAnswer(hasG, hasB, g, b, ug, ub) ==      \* defined when neither ambiguous nor missing
    IF ug = "N" /\ ub = "N" THEN (IF hasG THEN g ELSE b) ELSE IF ug = "T" THEN g ELSE b
\* branding: births, in order of first passage, are 0, 1, 2, ...
RECURSIVE FirstSeen(_, _)
FirstSeen(passes, acc) == IF passes = <<>> THEN acc ELSE FirstSeen(Tail(passes), IF Head(passes) \in Elems(acc) THEN acc ELSE Append(acc, Head(passes)))
BirthOf(order, x) == (CHOOSE k \in 1..Len(order) : order[k] = x) - 1
------------------------------------------------------------------------------
CONSTANTS Starts, Ds, MaxOps, NInd
VARIABLES start, cur, pub, hist, log, birth, nextb, passed
vars == <<start, cur, pub, hist, log, birth, nextb, passed>>
ModelStarts == {0, 3, -2}
ModelDs == {1, 2, -1}
Init == /\ start \in Starts /\ cur = start /\ pub = start /\ hist = <<>> /\ log = <<>>
        /\ birth = [ x \in 1..NInd |-> None ] /\ nextb = 0 /\ passed = <<>>
Inc(d) == /\ d > 0 /\ cur' = cur + d /\ pub' = pub + d /\ hist' = Append(hist, d) /\ log' = Append(log, cur + d)
          /\ UNCHANGED <<start, birth, nextb, passed>>
Dec == cur' = cur - 1 /\ pub' = pub - 1 /\ hist' = Append(hist, -1) /\ UNCHANGED <<start, log, birth, nextb, passed>>
Brand(x) == /\ birth' = IF birth[x] = None THEN [birth EXCEPT ![x] = nextb] ELSE birth
            /\ nextb' = IF birth[x] = None THEN nextb + 1 ELSE nextb
            /\ passed' = Append(passed, x) /\ UNCHANGED <<start, cur, pub, hist, log>>
Next == Len(hist) + Len(passed) < MaxOps /\ ((\E d \in Ds : IF d = -1 THEN Dec ELSE Inc(d)) \/ \E x \in 1..NInd : Brand(x))
Spec == Init /\ [][Next]_vars
Agree == cur = pub /\ cur = After(start, hist)
EveryIncAnnounced == Len(log) = Cardinality({ k \in 1..Len(hist) : hist[k] > 0 })
Unique == \A x, y \in 1..NInd : x # y /\ birth[x] # None => birth[x] # birth[y]
Consecutive == LET o == FirstSeen(passed, <<>>) IN \A x \in Elems(passed) : birth[x] = BirthOf(o, x)
NeverRebranded == [][\A x \in 1..NInd : birth[x] # None => birth'[x] = birth[x]]_vars
=============================================================================
