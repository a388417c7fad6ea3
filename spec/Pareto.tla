------------------------------- MODULE Pareto -------------------------------
(* P19-P21: Pareto dominance, non-dominated ranks, crowding distance, NSGA-II       *)
(* survival and incremental layers.  fit: id -> vector of integers; dirs: sequence   *)
(* of BOOLEAN (TRUE = maximised).                                                    *)
EXTENDS LeapCommon
AtLeast(dirs, a, b) == \A o \in 1..Len(dirs) : IF dirs[o] THEN a[o] >= b[o] ELSE a[o] <= b[o]
Dominates(dirs, a, b) == AtLeast(dirs, a, b) /\ a # b
Equivalent(dirs, a, b) == ~Dominates(dirs, a, b) /\ ~Dominates(dirs, b, a)
NonDominated(dirs, fit, S) == { x \in S : ~\E y \in S : Dominates(dirs, fit[y], fit[x]) }
\* ranks by peeling fronts: a function from S to 1..
RECURSIVE PeelFrom(_, _, _, _)
PeelFrom(dirs, fit, S, r) ==
    IF S = {} THEN << >>
    ELSE LET F == NonDominated(dirs, fit, S)  rest == PeelFrom(dirs, fit, S \ F, r + 1)
         IN [ x \in S |-> IF x \in F THEN r ELSE rest[x] ]
Ranks(dirs, fit, S) == PeelFrom(dirs, fit, S, 1)
\* the declarative characterisation
IsRanking(dirs, fit, S, rk) ==
    \A x \in S : LET D == { y \in S : Dominates(dirs, fit[y], fit[x]) } IN
        rk[x] = IF D = {} THEN 1 ELSE 1 + SetMax({ rk[y] : y \in D })
Front(rk, S, r) == { x \in S : rk[x] = r }
LastRank(rk, S) == SetMax({ rk[x] : x \in S })
------------------------------------------------------------------------------
(* Crowding distance, times Unit; Inf at the extremes.  With equal values the sort  *)
(* order is free, so a distance assignment is checked for existence of sort orders. *)
Unit == 2520
Varies(fit, F, o) == \E x, y \in F : fit[x][o] # fit[y][o]
Range(fit, F, o) == SetMax({ fit[x][o] : x \in F }) - SetMin({ fit[x][o] : x \in F })
RECURSIVE SortOrders(_, _, _)
SortOrders(fit, F, o) ==
    IF F = {} THEN {<<>>}
    ELSE LET m == SetMin({ fit[x][o] : x \in F }) IN
         UNION { { <<x>> \o s : s \in SortOrders(fit, F \ {x}, o) } : x \in { y \in F : fit[y][o] = m } }
PosIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Contribution(fit, F, o, s, x) ==
    LET k == PosIn(s, x) IN
    IF k = 1 \/ k = Len(s) THEN Inf
    ELSE ((fit[s[k + 1]][o] - fit[s[k - 1]][o]) * Unit) \div Range(fit, F, o)
Add(a, b) == IF a = Inf \/ b = Inf THEN Inf ELSE a + b
VaryingObjs(dirs, fit, F) == { o \in 1..Len(dirs) : Varies(fit, F, o) }
\* all possible distance assignments of a front
RECURSIVE DistancesOver(_, _, _)
DistancesOver(fit, F, O) ==
    IF O = {} THEN { [ x \in F |-> 0 ] }
    ELSE LET o == SetMin(O) IN
         UNION { { [ x \in F |-> Add(d[x], Contribution(fit, F, o, s, x)) ] : s \in SortOrders(fit, F, o) } : d \in DistancesOver(fit, F, O \ {o}) }
Distances(dirs, fit, F) == DistancesOver(fit, F, VaryingObjs(dirs, fit, F))
\* contributions are rounded down unless every range divides Unit
Slack(dirs, fit, F) == IF \A o \in VaryingObjs(dirs, fit, F) : Unit % Range(fit, F, o) = 0 THEN 0 ELSE Len(dirs)
IsDistance(dirs, fit, F, dist) == LET sl == Slack(dirs, fit, F) IN
    \E d \in Distances(dirs, fit, F) : \A x \in F : Abs(d[x] - dist[x]) <= sl
------------------------------------------------------------------------------
\* NSGA-II survival: K of S (|K| = n) prefers lower rank, then larger distance
IsSurvival(rk, dist, S, n, K) ==
    /\ K \subseteq S /\ Cardinality(K) = n
    /\ \A a \in K, b \in S \ K : rk[a] < rk[b] \/ (rk[a] = rk[b] /\ dist[a] >= dist[b])
\* Overflow of the incremental population: one of the least crowding distance of the last layer leaves
MayLeave(dirs, fit, S) ==
    LET rk == Ranks(dirs, fit, S)  L == Front(rk, S, LastRank(rk, S)) IN
    UNION { { x \in L : \A y \in L : d[x] <= d[y] + Slack(dirs, fit, L) } : d \in Distances(dirs, fit, L) }
AfterInsert(dirs, fit, S, x, cap) ==
    IF Cardinality(S) < cap THEN { S \cup {x} } ELSE { (S \cup {x}) \ {y} : y \in MayLeave(dirs, fit, S \cup {x}) }
------------------------------------------------------------------------------
(* The incremental model: arrivals in any order, layers maintained by peeling.      *)
CONSTANTS NObj, Vals, Cap, MaxArrivals
VARIABLES dirs, fit, S
vars == <<dirs, fit, S>>
Init == dirs \in [1..NObj -> BOOLEAN] /\ fit = <<>> /\ S = {}
Arrive == /\ Len(fit) < MaxArrivals
          /\ \E v \in [1..NObj -> Vals] :
               /\ fit' = Append(fit, v)
               /\ S' \in AfterInsert(dirs, fit', S, Len(fit'), Cap)
          /\ UNCHANGED dirs
Next == Arrive
Spec == Init /\ [][Next]_vars
RanksCharacterised == IsRanking(dirs, fit, S, Ranks(dirs, fit, S))
BoundedPop == Cardinality(S) = Min2(Cap, Len(fit))
FrontsAreAntichains == LET rk == Ranks(dirs, fit, S) IN \A x, y \in S : rk[x] = rk[y] => Equivalent(dirs, fit[x], fit[y])
StrictOrder == \A x, y \in S : ~(Dominates(dirs, fit[x], fit[y]) /\ Dominates(dirs, fit[y], fit[x]))
\* a non-dominated newcomer is dropped only when everybody is on the first front
NonDominatedKept == [][\A x \in (S \cup {Len(fit')}) \ S' :
                        x \in NonDominated(dirs, fit', S \cup {Len(fit')}) => NonDominated(dirs, fit', S \cup {Len(fit')}) = S \cup {Len(fit')}]_vars
=============================================================================
