------------------------------ MODULE Seeding ------------------------------
(* P32: seeded initialisation and the population-seeding repertoire.              *)
(* Genomes are numbers; 0 stands for a fresh genome of the plain initializer.     *)
EXTENDS LeapCommon
Handed(seeds, k) == [ j \in 1..k |-> IF j <= Len(seeds) THEN seeds[j] ELSE 0 ]
------------------------------------------------------------------------------
CONSTANTS MaxOps, MaxPop, Sols
VARIABLES store, file, pops, ops
vars == <<store, file, pops, ops>>
Absent == <<-1>>
Init == store = <<>> /\ file = Absent /\ pops = <<>> /\ ops = 0
Build == \E s \in SeqsUpTo(Sols, 2) : store' = store \o s /\ UNCHANGED <<file, pops>>
Apply == \E k \in 0..MaxPop : pops' = Append(pops, [was |-> store, pop |-> Handed(store, k)]) /\ UNCHANGED <<store, file>>
Export == file' = store /\ UNCHANGED <<store, pops>>
Reload == file # Absent /\ store' = file /\ UNCHANGED <<file, pops>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ (Build \/ Apply \/ Export \/ Reload)
Spec == Init /\ [][Next]_vars
SeedsOnce == \A q \in 1..Len(pops) : LET p == pops[q].pop  w == pops[q].was IN
    /\ Cardinality({ j \in 1..Len(p) : p[j] # 0 }) = Min2(Len(p), Len(w))
    /\ \A j \in 1..Len(p) : p[j] # 0 => p[j] = w[j]
    /\ \A j \in 1..Len(p) : p[j] = 0 => j > Len(w)
ReadOnlyUses == [][(store' # store) => (Len(store') > Len(store) /\ SubSeq(store', 1, Len(store)) = store) \/ store' = file]_vars
=============================================================================
