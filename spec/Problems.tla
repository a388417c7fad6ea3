------------------------------ MODULE Problems ------------------------------
(* P29: problem wrappers and exactly defined benchmark problems.                    *)
EXTENDS LeapCommon
Ones(s) == Count(s, 1)
MaxOnes(s, t) == Cardinality({ k \in 1..Len(s) : s[k] = t[k] })          \* t: target (all ones by default)
LeadingOnes(s, t) == LET bad == { k \in 1..Len(s) : s[k] # t[k] } IN IF bad = {} THEN Len(s) ELSE SetMin(bad) - 1
TwoMax(s) == Max2(Ones(s), Len(s) - Ones(s))
Trap(s) == IF Ones(s) = Len(s) THEN Len(s) ELSE Len(s) - Ones(s) - 1
\* which of n alternating problems is in force
Active(gen, modulo, n) == ((gen \div modulo) % n) + 1
\* dimensions of an observation or action space <<kind, arg>>
RECURSIVE ProdSeq(_)
ProdSeq(q) == IF q = <<>> THEN 1 ELSE Head(q) * ProdSeq(Tail(q))
Dims1(sp) == IF sp[1] = "discrete" THEN 1 ELSE ProdSeq(sp[2])
Dims(sp) == IF sp[1] = "tuple" THEN SumSeq([ k \in 1..Len(sp[2]) |-> Dims1(sp[2][k]) ]) ELSE Dims1(sp)
\* number of steps of an episode: done flags, step limit, whether to stop when done
EpisodeLen(done, limit, stop) ==
    LET hits == { k \in 1..limit : done[k] } IN IF stop /\ hits # {} THEN SetMin(hits) ELSE limit
\* rows of a truth table with nin inputs, in counting order
Bit(v, k, n) == (v \div Pow(2, n - k)) % 2
TTRow(v, n) == [ k \in 1..n |-> Bit(v, k, n) ]
------------------------------------------------------------------------------
CONSTANTS MaxLen, MaxGen, NProb, Modulo
VARIABLES str, now, evals
vars == <<str, now, evals>>
AllOnes(n) == [ k \in 1..n |-> 1 ]
Init == str = <<>> /\ now = 0 /\ evals = <<>>
Grow == Len(str) < MaxLen /\ \E b \in {0, 1} : str' = Append(str, b) /\ UNCHANGED <<now, evals>>
Eval == now < MaxGen /\ Len(evals) < MaxGen /\ evals' = Append(evals, [at |-> now, by |-> Active(now, Modulo, NProb)]) /\ UNCHANGED <<str, now>>
Tick == now < MaxGen /\ now' = now + 1 /\ UNCHANGED <<str, evals>>
Next == Grow \/ Eval \/ Tick
Spec == Init /\ [][Next]_vars
OneOptimum == LET t == AllOnes(Len(str)) IN
    /\ MaxOnes(str, t) = Ones(str) /\ LeadingOnes(str, t) <= Ones(str)
    /\ (MaxOnes(str, t) = Len(str)) = (str = t) /\ (LeadingOnes(str, t) = Len(str)) = (str = t)
    /\ TwoMax(str) >= Len(str) - TwoMax(str) /\ (Len(str) > 0 => Trap(str) <= Len(str) /\ ((Trap(str) = Len(str)) = (str = t)))
Deceptive == \A k \in 1..Len(str) : (str[k] = 1 /\ Ones(str) < Len(str)) => Trap([str EXCEPT ![k] = 0]) = Trap(str) + 1
Alternates == \A k \in 1..Len(evals) : evals[k].by \in 1..NProb /\ evals[k].by = Active(evals[k].at, Modulo, NProb)
Intervals == now > 0 => (Active(now, Modulo, NProb) # Active(now - 1, Modulo, NProb) <=> (NProb > 1 /\ now % Modulo = 0))
=============================================================================
