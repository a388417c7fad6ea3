------------------------------ MODULE Pipeline ------------------------------
(* P30: pipelines.  Demand: a pool at the end pulls individuals through a chain   *)
(* of lazy stages; a stage either handles one individual per request ("map") or   *)
(* takes two at a time and keeps the second result ("pair").  Wiring: every       *)
(* operator takes and returns a list or an iterator and refuses anything else.    *)
EXTENDS LeapCommon
\* how many individuals stage k..Len(st) together take from upstream of stage k when n are asked for
RECURSIVE Need(_, _, _)
Need(st, k, n) == IF k > Len(st) THEN n
                  ELSE LET m == Need(st, k + 1, n) IN IF st[k] = "pair" THEN 2 * ((m + 1) \div 2) ELSE m
Needs(st, n) == [ k \in 1..Len(st) |-> Need(st, k, n) ]
\* which source positions the j-th result may stem from
Block(st, j) == IF \E k \in 1..Len(st) : st[k] = "pair" THEN LET b == (j + 1) \div 2 IN {2 * b - 1, 2 * b} ELSE {j}
\* an operator with input and output kinds (i, o), given a value of kind v and producing kind r
OpOutcome(ik, ok, v, r) == IF v # ik \/ r # ok THEN "refused" ELSE r
------------------------------------------------------------------------------
AllOpKinds == {"list", "iter"} \X {"list", "iter"}
CONSTANTS MaxStages, MaxPool, Kinds, OpKinds
VARIABLES stages, want, taken, held, out, ask,     \* demand
          val, chain, status                        \* wiring
vars == <<stages, want, taken, held, out, ask, val, chain, status>>
Chains == SeqsUpTo({"map", "pair"}, MaxStages)
Init == /\ stages \in Chains /\ want \in 0..MaxPool
        /\ taken = [ k \in 1..Len(stages) |-> 0 ] /\ held = [ k \in 1..Len(stages) |-> FALSE ] /\ out = 0
        /\ ask = 0                                  \* level whose upstream is being asked (0: nobody)
        /\ val \in Kinds /\ chain = <<>> /\ status = "ok"
n == Len(stages)
\* one complete request of the pool, resolved stage by stage from the last to the source
RECURSIVE Pull(_, _, _)
Pull(k, tk, hd) == IF k = 0 THEN <<tk, hd>>
                   ELSE IF stages[k] = "map" THEN Pull(k - 1, [tk EXCEPT ![k] = @ + 1], hd)
                   ELSE IF hd[k] THEN <<tk, [hd EXCEPT ![k] = FALSE]>>
                   ELSE LET a == Pull(k - 1, tk, hd)  b == Pull(k - 1, a[1], a[2]) IN <<[b[1] EXCEPT ![k] = @ + 2], [b[2] EXCEPT ![k] = TRUE]>>
Request == /\ out < want
           /\ LET p == Pull(n, taken, held) IN taken' = p[1] /\ held' = p[2]
           /\ out' = out + 1 /\ UNCHANGED <<stages, want, ask, val, chain, status>>
Apply == /\ status = "ok" /\ Len(chain) < MaxStages
         /\ \E o \in OpKinds : LET r == OpOutcome(o[1], o[2], val, o[2]) IN
              /\ chain' = Append(chain, o)
              /\ IF r = "refused" THEN status' = "refused" /\ UNCHANGED val ELSE val' = r /\ UNCHANGED status
         /\ UNCHANGED <<stages, want, taken, held, out, ask>>
Next == Request \/ Apply
Spec == Init /\ [][Next]_vars
Lazy == out = 0 => \A k \in 1..n : taken[k] = 0
ExactDemand == taken = Needs(stages, out)
NoWaste == (\A k \in 1..n : stages[k] = "map") => \A k \in 1..n : taken[k] = out
AtMostOneAhead == \A k \in 1..n : taken[k] <= out + 1
\* refused exactly when some adjacent kinds do not fit
WellTyped(v0, ch) == \A k \in 1..Len(ch) : ch[k][1] = (IF k = 1 THEN v0 ELSE ch[k - 1][2])
RefusedIffMiswired == status = "refused" => Len(chain) > 0 /\ chain[Len(chain)][1] # val
AcceptedFits == (status = "ok" /\ chain # <<>>) => val = chain[Len(chain)][2]
=============================================================================
