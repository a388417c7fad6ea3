---------------------------- MODULE Generational ----------------------------
(* P04: the generational loop: create, evaluate, then (consult stop; pipeline;   *)
(* elitist survival; count) until the maximum generation or the stop condition.  *)
EXTENDS LeapCommon
Sv == INSTANCE Survival WITH Vals <- {}, NO <- 0, NP <- 0, mx <- TRUE, val <- <<>>, pop <- <<>>, next <- 0

\* next population after offspring `off` from parents `par` (sequences of ids, val: id -> fitness)
IsNextPopulation(max, val, off, par, k, new) ==
    Sv!IsElitistFast(max, val, Elems(off), Elems(par), k, new)
BestOf(max, val, P) == CHOOSE v \in { val[x] : x \in P } : \A y \in P : ~Better(max, val[y], v)
----------------------------------------------------------------------------
CONSTANTS Vals, PopSize, PoolSize, MaxGen, StartGen, K
MVals == {NaN, 0, 1}
VARIABLES mx, gen, pop, phase, best0, evals
\* pop: sequence of fitness values (individuals are anonymous here)
vars == <<mx, gen, pop, phase, best0, evals>>
BestV(p) == CHOOSE v \in Elems(p) : \A y \in Elems(p) : ~Better(mx, y, v)
Init == /\ mx \in BOOLEAN /\ gen = StartGen /\ pop \in [1..PopSize -> Vals] /\ phase = "loop"
        /\ best0 = BestV(pop) /\ evals = PopSize
Stop == phase = "loop" /\ phase' = "done" /\ UNCHANGED <<mx, gen, pop, best0, evals>>      \* the stop condition may hold at any time
Generation ==
    /\ phase = "loop" /\ gen < MaxGen
    /\ \E off \in [1..PoolSize -> Vals] :
         LET n == PoolSize  all == off \o pop
             val == [ x \in 1..(n + Len(pop)) |-> all[x] ]
         IN \E E \in Sv!EliteSets(mx, val, (n + 1)..(n + Len(pop)), K) : \E J \in SUBSET (1..n \cup E) :
              /\ Cardinality(J) = n /\ \A a \in J, b \in (1..n \cup E) \ J : ~Better(mx, val[b], val[a])
              /\ pop' = LET RECURSIVE T(_) 
                            T(X) == IF X = {} THEN <<>> ELSE LET x == SetMin(X) IN <<val[x]>> \o T(X \ {x})
                        IN T(J)
    /\ gen' = gen + 1 /\ evals' = evals + PoolSize /\ UNCHANGED <<mx, phase, best0>>
Finish == phase = "loop" /\ gen >= MaxGen /\ phase' = "done" /\ UNCHANGED <<mx, gen, pop, best0, evals>>
Next == Stop \/ Generation \/ Finish
Spec == Init /\ [][Next]_vars
SizeIsPool == gen > StartGen => Len(pop) = PoolSize
NeverTooLong == gen <= Max2(MaxGen, StartGen)
BestNeverWorsens == [][K >= 1 /\ Elems(pop) # {} /\ Elems(pop') # {} => ~Worse(mx, BestV(pop'), BestV(pop))]_vars
BestAtLeastInitial == K >= 1 => ~Worse(mx, BestV(pop), best0)
EvalsAccounted == evals = PopSize + PoolSize * (gen - StartGen)
=============================================================================
