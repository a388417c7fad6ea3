----------------------------- MODULE SteadyState -----------------------------
(* P15/P16: the asynchronous steady-state loop.  cfg = [init, cap, max, m, count]:    *)
(* initial population, capacity, birth budget, offspring bred at a time, and whether  *)
(* failed evaluations count as births.  The order in which pending evaluations        *)
(* complete, and which of them fail, is the environment's choice.                     *)
EXTENDS LeapCommon
Start(cfg) == [pend |-> [ k \in 1..cfg.init |-> k ], births |-> 0, created |-> 0, fails |-> 0, done |-> <<>>, popn |-> 0, bred |-> {}]
RemoveAt(s, k) == [ j \in 1..(Len(s) - 1) |-> IF j < k THEN s[j] ELSE s[j + 1] ]
\* the k-th pending evaluation completes (f: it fails)
Births1(cfg, st, f) == IF f /\ ~cfg.count THEN st.births - 1 ELSE st.births
Breeds(cfg, st, f) == Births1(cfg, st, f) < cfg.max
Complete(cfg, st, k, f) ==
    LET b == Births1(cfg, st, f)  more == IF b < cfg.max THEN cfg.m ELSE 0
        n == cfg.init + st.created
    IN [pend |-> RemoveAt(st.pend, k) \o [ j \in 1..more |-> n + j ],
        births |-> b + more, created |-> st.created + more,
        fails |-> st.fails + (IF f THEN 1 ELSE 0),
        done |-> Append(st.done, st.pend[k]),
        popn |-> Min2(cfg.cap, st.popn + 1),
        bred |-> st.bred \cup { n + j : j \in 1..more }]
Over(st) == st.pend = <<>>
Uncounted(cfg, st) == IF cfg.count THEN 0 ELSE st.fails
------------------------------------------------------------------------------
CONSTANTS MInit, MCap, MMax, MM, MaxFails
VARIABLES cfg, st
vars == <<cfg, st>>
Init == /\ cfg \in [init : MInit, cap : MCap, max : MMax, m : MM, count : BOOLEAN]
        /\ st = Start(cfg)
CompleteOne == \E k \in 1..Len(st.pend), f \in BOOLEAN :
        /\ f => st.fails < MaxFails
        /\ st' = Complete(cfg, st, k, f) /\ UNCHANGED cfg
Next == CompleteOne
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
BirthsAreAccounted == st.births = st.created - Uncounted(cfg, st)
EachOnce == IsInj(st.done) /\ \A x \in Elems(st.done) : x \in 1..(cfg.init + st.created)
NobodyLost == Elems(st.done) \cup Elems(st.pend) = 1..(cfg.init + st.created)
Bounded == st.popn <= cfg.cap
BudgetExact == Over(st) => /\ st.births >= cfg.max /\ st.births < cfg.max + cfg.m
                           /\ cfg.m = 1 => Len(st.done) = cfg.init + cfg.max + Uncounted(cfg, st)
Terminates == <>Over(st)
=============================================================================
