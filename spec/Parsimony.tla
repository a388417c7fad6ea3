------------------------------ MODULE Parsimony ------------------------------
(* P28: parsimony orders.  An individual is [f |-> fitness, n |-> genome length].   *)
(* pen2 is twice the penalty.                                                        *)
EXTENDS LeapCommon
Adj(mx, f) == IF mx THEN f ELSE -f
LexLess(mx, x, y) == Adj(mx, x.f) < Adj(mx, y.f) \/ (x.f = y.f /\ x.n > y.n)
Koza2(mx, pen2, x) == 2 * Adj(mx, x.f) - pen2 * x.n
KozaLess(mx, pen2, x, y) == Koza2(mx, pen2, x) < Koza2(mx, pen2, y)
Less(key, mx, pen2, x, y) == IF key = "lex" THEN LexLess(mx, x, y) ELSE KozaLess(mx, pen2, x, y)
\* ordinal of each individual of a sequence in the order of the key (equal keys share it)
Rank(key, mx, pen2, inds) == [ k \in 1..Len(inds) |-> Cardinality({ j \in 1..Len(inds) : Less(key, mx, pen2, inds[j], inds[k]) }) ]
------------------------------------------------------------------------------
CONSTANTS Fits, Lens, Pens
VARIABLES mx, pen2, a, b, c
vars == <<mx, pen2, a, b, c>>
Inds == [f : Fits, n : Lens]
ModelFits == -1..2
Init == mx \in BOOLEAN /\ pen2 \in Pens /\ a \in Inds /\ b \in Inds /\ c \in Inds
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
StrictWeak(L(_, _)) == ~L(a, a) /\ (L(a, b) => ~L(b, a)) /\ (L(a, b) /\ L(b, c) => L(a, c))
                       /\ (L(a, c) => L(a, b) \/ L(b, c))
LexOrder == StrictWeak(LAMBDA x, y : LexLess(mx, x, y))
KozaOrder == StrictWeak(LAMBDA x, y : KozaLess(mx, pen2, x, y))
FitnessFirst == Worse(mx, a.f, b.f) => LexLess(mx, a, b)
ShorterWins == a.f = b.f /\ a.n < b.n => LexLess(mx, b, a) /\ (pen2 > 0 => KozaLess(mx, pen2, b, a))
NoPenaltyNoBias == pen2 = 0 => (KozaLess(mx, 0, a, b) <=> Worse(mx, a.f, b.f))
=============================================================================
