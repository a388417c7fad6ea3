------------------------------ MODULE Survival ------------------------------
(* P05, P28: survivor selection as relations between pools and survivors.      *)
(* A pool is a sequence of values; survivors are sequences of positions.        *)
EXTENDS LeapCommon

\* kept is an acceptable choice of the `size` best positions of pool (restricted to positions P)
IsTruncation(max, val, P, size, kept) ==
    /\ IsInj(kept) /\ Elems(kept) \subseteq P
    /\ Len(kept) = Min2(size, Cardinality(P))
    /\ \A a \in Elems(kept), b \in P \ Elems(kept) : ~Better(max, val[b], val[a])

\* sets of k best parents (ties give several)
EliteSets(max, val, P, k) ==
    { E \in SUBSET P : /\ Cardinality(E) = Min2(k, Cardinality(P))
                       /\ \A a \in E, b \in P \ E : ~Better(max, val[b], val[a]) }
IsElitist(max, val, Off, Par, k, kept) ==
    \E E \in EliteSets(max, val, Par, k) : IsTruncation(max, val, Off \cup E, Cardinality(Off), kept)

\* the same, decided without enumerating the elite sets: those certainly elite, the tied class at the threshold, and as
\* many of the tied class as there is room for, the kept ones first
IsElitistFast(max, val, Off, Par, k, kept) ==
    LET kk == Min2(k, Cardinality(Par))
        atleast(p) == Cardinality({ q \in Par : ~Better(max, val[p], val[q]) })
        above(p) == Cardinality({ q \in Par : Better(max, val[q], val[p]) })
        sure == { p \in Par : atleast(p) <= kk }
        tied == { p \in Par : above(p) < kk } \ sure
        room == kk - Cardinality(sure)
        kt == Elems(kept) \cap tied
        rest == tied \ kt
        fill == { x \in rest : Cardinality({ y \in rest : y <= x }) <= room - Cardinality(kt) }
    IN Cardinality(kt) <= room /\ IsTruncation(max, val, Off \cup sure \cup kt \cup fill, Cardinality(Off), kept)

\* what every outcome of insertion satisfies, cheaply: slots never worsen, and an offspring that is not there met a slot
\* that now holds something at least as good
MayInsert(max, val, par, offs, kept) ==
    /\ Len(kept) = Len(par) /\ IsInj(kept)
    /\ \A s \in 1..Len(par) : kept[s] = par[s] \/ (kept[s] \in Elems(offs) /\ ~Better(max, val[par[s]], val[kept[s]]))
    /\ \A c \in Elems(offs) \ Elems(kept) : \E s \in 1..Len(par) :
          Better(max, val[kept[s]], val[c]) \/ (kept[s] # par[s] /\ ~Better(max, val[c], val[kept[s]])) \/ (val[c] = NaN /\ val[kept[s]] = NaN)

\* populations reachable by letting offspring challenge random slots, in order
MayReplace(max, occ, ch) == IF occ = NaN /\ ch = NaN THEN {TRUE, FALSE} ELSE {~Better(max, occ, ch)}
Challenge(max, val, pop, c) ==
    UNION { { IF r THEN [pop EXCEPT ![s] = c] ELSE pop : r \in MayReplace(max, val[pop[s]], val[c]) } : s \in 1..Len(pop) }
RECURSIVE Insertions(_, _, _, _)
Insertions(max, val, pops, offs) ==
    IF offs = <<>> THEN pops
    ELSE Insertions(max, val, UNION { Challenge(max, val, p, Head(offs)) : p \in pops }, Tail(offs))

----------------------------------------------------------------------------
(* Model: insertion selection as a process, and the other two as one-shot       *)
(* choices, over all small pools.  Positions 1..NO are offspring, then parents.  *)
CONSTANTS Vals, NO, NP
ModelVals == {NaN, 0, 1, 2}
VARIABLES mx, val, pop, next
vars == <<mx, val, pop, next>>
Off == 1..NO
Par == (NO + 1)..(NO + NP)
Init == mx \in BOOLEAN /\ val \in [1..(NO + NP) -> Vals] /\ pop = [ s \in 1..NP |-> NO + s ] /\ next = 1
Step == next <= NO /\ next' = next + 1 /\ pop' \in Challenge(mx, val, pop, next) /\ UNCHANGED <<mx, val>>
Spec == Init /\ [][Step]_vars
BestVal(P) == { v \in { val[x] : x \in P } : \A y \in P : ~Better(mx, val[y], v) }
SizeConstant == Len(pop) = NP
NoInvention == IsInj(pop) /\ Elems(pop) \subseteq Off \cup Par
SlotsNeverWorsen == [][\A s \in 1..NP : ~Better(mx, val[pop[s]], val[pop'[s]])]_vars
Reached == pop \in Insertions(mx, val, { [ s \in 1..NP |-> NO + s ] }, [ k \in 1..(next - 1) |-> k ])
SomeTruncation == next = 1 => \A n \in 0..(NO + NP) : \E K \in SUBSET (Off \cup Par) :
    Cardinality(K) = n /\ \A a \in K, b \in (Off \cup Par) \ K : ~Better(mx, val[b], val[a])
\* with one elite or more, the best survivor is at least as good as the best parent
FastAgrees == next = 1 => \A k \in 0..NP : \A K \in [1..NO -> Off \cup Par] :
    IsInj(K) => (IsElitist(mx, val, Off, Par, k, K) <=> IsElitistFast(mx, val, Off, Par, k, K))
CheapIsSound == MayInsert(mx, val, [ s \in 1..NP |-> NO + s ], [ k \in 1..(next - 1) |-> k ], pop)
ElitesNeverLost == next = 1 =>
    \A k \in 1..NP : \A E \in EliteSets(mx, val, Par, k) : \A K \in SUBSET (Off \cup E) :
       (Cardinality(K) = NO /\ \A a \in K, b \in (Off \cup E) \ K : ~Better(mx, val[b], val[a]))
         => \A p \in Par : \E a \in K : ~Better(mx, val[p], val[a])
=============================================================================
