----------------------------- MODULE RandomWalk -----------------------------
(* P31: random search is a walk: draw one individual, then repeatedly derive a    *)
(* successor from the latest one only, until the requested number of evaluations. *)
EXTENDS LeapCommon
CONSTANTS MaxEvals, Genomes
VARIABLES goal, walk, evals, pub, other, log
vars == <<goal, walk, evals, pub, other, log>>
Eval(g) == 10 * g + 1
Init == /\ goal \in 1..MaxEvals /\ other = None
        /\ \E g \in Genomes : walk = << [g |-> g, fit |-> Eval(g), from |-> 0] >> /\ log = <<g>>
        /\ evals = 1 /\ pub = 1
Step == /\ evals < goal
        /\ \E g \in Genomes : /\ walk' = Append(walk, [g |-> g, fit |-> Eval(g), from |-> Len(walk)])
                              /\ log' = Append(log, g)
        /\ evals' = evals + 1 /\ pub' = pub + 1 /\ UNCHANGED <<goal, other>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Counted == pub = Len(walk) /\ evals = Len(log) /\ Len(log) = Len(walk)
Chain == \A k \in 1..Len(walk) : walk[k].from = k - 1
Faithful == \A k \in 1..Len(walk) : walk[k].fit = Eval(walk[k].g)
Bounded == Len(walk) <= goal
ContextOnly == other = None
Grows == [][Len(walk') = Len(walk) + 1 /\ SubSeq(walk', 1, Len(walk)) = walk]_vars
Ends == <>(Len(walk) = goal)
=============================================================================
