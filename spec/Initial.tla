------------------------------ MODULE Initial ------------------------------
(* P27: initial populations and genome initialisers.                                *)
EXTENDS LeapCommon
InBounds(bounds, g) == Len(g) = Len(bounds) /\ \A l \in 1..Len(g) : bounds[l][1] <= g[l] /\ g[l] <= bounds[l][2]
Values(b) == b[1]..b[2]
------------------------------------------------------------------------------
(* Model: individuals are created one after another from fresh initialiser calls; *)
(* storage cells are genome buffers.                                               *)
CONSTANTS Sizes, Bounds
VARIABLES want, pop, calls
vars == <<want, pop, calls>>
ModelBounds == << <<0, 1>>, <<-1, 1>> >>
Init == want \in Sizes /\ pop = <<>> /\ calls = 0
Genomes == { g \in [1..Len(Bounds) -> -1..1] : InBounds(Bounds, g) }
Create == /\ Len(pop) < want
          /\ \E g \in Genomes : pop' = Append(pop, [id |-> Len(pop) + 1, cell |-> calls + 1, g |-> g, fit |-> None, parents |-> {}])
          /\ calls' = calls + 1 /\ UNCHANGED want
Next == Create
Spec == Init /\ [][Next]_vars
Own == \A j, k \in 1..Len(pop) : j # k => pop[j].id # pop[k].id /\ pop[j].cell # pop[k].cell
OneCallEach == calls = Len(pop) /\ Len(pop) <= want
Within == \A j \in 1..Len(pop) : InBounds(Bounds, pop[j].g) /\ pop[j].fit = None /\ pop[j].parents = {}
EveryValueReachable == \A l \in 1..Len(Bounds) : \A v \in Values(Bounds[l]) : \E g \in Genomes : g[l] = v
=============================================================================
