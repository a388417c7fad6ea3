------------------------------ MODULE Ordering ------------------------------
(* P01: the comparison of individuals of a scalar problem.                     *)
EXTENDS LeapCommon

\* the verdicts of the six Python comparison operators, as a record
Ops(max, a, b) ==
    LET lt == Worse(max, a, b)
        gt == Worse(max, b, a)
        eq == a = b
    IN [ lt |-> lt, gt |-> gt, eq |-> eq, ne |-> ~eq, le |-> lt \/ eq, ge |-> gt \/ eq ]

IsBest(max, pop, i)  == \A j \in 1..Len(pop) : ~Worse(max, pop[i], pop[j])
IsWorst(max, pop, i) == \A j \in 1..Len(pop) : ~Worse(max, pop[j], pop[i])
\* ord: positions of pop from worst to best
IsSorted(max, pop, ord) ==
    /\ Len(ord) = Len(pop) /\ IsInj(ord) /\ Elems(ord) = 1..Len(pop)
    /\ \A p, q \in 1..Len(ord) : p < q => ~Worse(max, pop[ord[q]], pop[ord[p]])

----------------------------------------------------------------------------
(* Model: every triple of fitness values under both directions.                *)
CONSTANT Dom
ModelDom == {NaN, NInf, -2, -1, 0, 1, 2, 3, Inf}
VARIABLES mx, x, y, z
vars == <<mx, x, y, z>>
Init == mx \in BOOLEAN /\ x \in Dom /\ y \in Dom /\ z \in Dom
Next == UNCHANGED vars
Irreflexive  == ~Worse(mx, x, x)
Asymmetric   == Worse(mx, x, y) => ~Worse(mx, y, x)
Transitive   == Worse(mx, x, y) /\ Worse(mx, y, z) => Worse(mx, x, z)
Trichotomy   == Worse(mx, x, y) \/ Worse(mx, y, x) \/ x = y
NaNWorst     == (x # NaN /\ y = NaN) => Worse(mx, y, x)
OpsCoherent  == LET o == Ops(mx, x, y) IN
                /\ o.ne = ~o.eq /\ o.ge = ~o.lt /\ o.le = ~o.gt
                /\ Cardinality({ k \in {"lt", "gt", "eq"} : o[k] }) = 1
\* a maximum exists for every population, and it is greater or equal to each member
BestExists   == \E i \in 1..3 : IsBest(mx, <<x, y, z>>, i)
SortExists   == \E o \in { s \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => s[i] # s[j] } : IsSorted(mx, <<x, y, z>>, o)
=============================================================================
