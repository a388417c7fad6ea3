------------------------------- MODULE Probes -------------------------------
(* P22: probes.  A probe sees a history of (generation, population) pairs and       *)
(* publishes rows; it hands on what it received.                                     *)
EXTENDS LeapCommon
\* v is the best value of the non-empty sequence of fitnesses seen so far
IsBest(mx, seen, v) == v \in Elems(seen) /\ \A k \in 1..Len(seen) : ~Better(mx, seen[k], v)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* indices of history entries that are due for a row
Due(gens, modulo) == SelectSeq([ k \in 1..Len(gens) |-> k ], LAMBDA k : gens[k] % modulo = 0)
SumSq(s) == SumSeq([ k \in 1..Len(s) |-> s[k] * s[k] ])
\* a population with a failed member has no mean, spread, least or greatest fitness: the row says so
HasNaN(s) == NaN \in Elems(s)
Lo(s) == IF HasNaN(s) THEN NaN ELSE SetMin(Elems(s))
Hi(s) == IF HasNaN(s) THEN NaN ELSE SetMax(Elems(s))
\* fx is a published number times 100, rounded
MeanOK(s, fx) == IF HasNaN(s) THEN fx = NaN ELSE Abs(fx * Len(s) - 100 * SumSeq(s)) <= Len(s)
StdOK(s, fx) == IF HasNaN(s) THEN fx = NaN ELSE
    LET n == Len(s)  q == n * SumSq(s) - SumSeq(s) * SumSeq(s)
        v == 10000 * q  w == ((((q * 1000) \div n) * 10) \div n) IN       \* q / n^2 is the variance; w avoids overflow for large n
    /\ fx >= 0
    /\ IF n <= 40 THEN (fx = 0 \/ (fx - 1) * (fx - 1) * n * n <= v) /\ v <= (fx + 1) * (fx + 1) * n * n
       ELSE (fx = 0 \/ (fx - 1) * (fx - 1) <= w + 2) /\ w <= (fx + 1) * (fx + 1)
StatsRowOK(mx, gens, pops, k, row) ==
    /\ row.step = gens[k]
    /\ IsBest(mx, Flat(SubSeq(pops, 1, k)), row.bsf)
    /\ MeanOK(pops[k], row.mean) /\ StdOK(pops[k], row.std)
    /\ row.min = Lo(pops[k]) /\ row.max = Hi(pops[k])
\* diversity metrics over genomes (sequences of integer sequences)
Dist2(a, b) == SumSeq([ k \in 1..Len(a) |-> (a[k] - b[k]) * (a[k] - b[k]) ])
PairSum(gs) == SumSeq([ i \in 1..Len(gs) |-> SumSeq([ j \in 1..Len(gs) |-> Dist2(gs[i], gs[j]) ]) ])
Locus(gs, l) == [ i \in 1..Len(gs) |-> gs[i][l] ]
Fixated(gs) == Cardinality({ l \in 1..Len(gs[1]) : Cardinality(Elems(Locus(gs, l))) = 1 })
VarTimesN2(gs) == SumSeq([ l \in 1..Len(gs[1]) |-> Len(gs) * SumSq(Locus(gs, l)) - SumSeq(Locus(gs, l)) * SumSeq(Locus(gs, l)) ])
\* columns and rows of the attribute probe
Columns(c) == c.job \o c.notes \o <<"step">> \o c.attrs \o c.fitcol \o c.gencol \o c.extras
BestIdx(mx, fits) == { k \in 1..Len(fits) : \A j \in 1..Len(fits) : ~Better(mx, fits[j], fits[k]) }
------------------------------------------------------------------------------
CONSTANTS Vals, N, Gens, Modulo
VARIABLES mx, gen, seen, bsf, rows, last
vars == <<mx, gen, seen, bsf, rows, last>>
ModelVals == {NaN, 0, 1, 2}
Pops == SeqsUpTo(Vals, N) \ {<<>>}
BestOf(m, s) == CHOOSE v \in Elems(s) : \A w \in Elems(s) : ~Better(m, w, v)
Init == mx \in BOOLEAN /\ gen = 0 /\ seen = {} /\ bsf = None /\ rows = <<>> /\ last = <<>>
Step(p) ==
    /\ gen < Gens
    /\ LET b == BestOf(mx, p)
           b2 == IF bsf = None \/ Better(mx, b, bsf) THEN b ELSE bsf IN
         /\ bsf' = b2
         /\ rows' = IF gen % Modulo = 0 THEN Append(rows, [step |-> gen, bsf |-> b2]) ELSE rows
    /\ seen' = seen \cup Elems(p) /\ last' = p /\ gen' = gen + 1 /\ UNCHANGED mx
Next == \E p \in Pops : Step(p)
Spec == Init /\ [][Next]_vars
BsfIsBest == gen > 0 => bsf \in seen /\ \A v \in seen : ~Better(mx, v, bsf)
RowsOnSchedule == [ k \in 1..Len(rows) |-> rows[k].step ] = [ k \in 1..Len(rows) |-> (k - 1) * Modulo ] /\ (gen > 0 => Len(rows) = (gen - 1) \div Modulo + 1)
RowsNeverWorsen == \A j, k \in 1..Len(rows) : j < k => ~Better(mx, rows[j].bsf, rows[k].bsf)
NeverWorsens == [][bsf # None => ~Worse(mx, bsf', bsf)]_vars
=============================================================================
