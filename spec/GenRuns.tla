------------------------------ MODULE GenRuns ------------------------------
(* Scripted generational runs: initial fitness values, offspring values per       *)
(* generation, elites, direction, start generation, maximum, stop step.           *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Vals, Pop, Pool, Gens
QVals == {NaN, 0, 1}
VARIABLE d
Pops(n) == { p \in SeqsUpTo(Vals, n) : Len(p) = n }
Scripts == { [init |-> a, offs |-> b, k |-> k, max |-> m, stop |-> s] :
               a \in Pops(Pop), b \in { q \in SeqsUpTo(Pops(Pool), Gens) : Len(q) = Gens }, k \in 0..Pop, m \in BOOLEAN, s \in {0, Gens} }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Scripts))
Next == UNCHANGED d
=============================================================================
