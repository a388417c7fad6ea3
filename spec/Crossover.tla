------------------------------ MODULE Crossover ------------------------------
(* P08: recombination of two genomes.  Genes are tokens; every token occurs      *)
(* once, so the source of every gene of a child is known.                        *)
EXTENDS LeapCommon

\* Conservation: locus by locus the children hold the parents' genes; the tail beyond the shorter parent
\* is kept whole at the end of one child
At(g, j) == IF j <= Len(g) THEN g[j] ELSE None
Conserves(a, b, c, d) ==
    /\ {Len(a), Len(b)} = {Len(c), Len(d)}
    /\ \A j \in 1..Max2(Len(a), Len(b)) :
         {At(a, j), At(b, j)} = {At(c, j), At(d, j)}
\* source of locus j of the first child: TRUE = still parent a
Straight(a, b, c, j) == At(c, j) = At(a, j)
\* number of alternations of the first child's source, starting from a
Alternations(a, b, c) ==
    LET m == Max2(Len(a), Len(b)) IN
    Cardinality({ j \in 1..m : Straight(a, b, c, j) # (IF j = 1 THEN TRUE ELSE Straight(a, b, c, j - 1)) })
\* swapped set of a uniform crossover
Swapped(a, b, c) == { j \in 1..Min2(Len(a), Len(b)) : c[j] = b[j] }

\* the child given by cut positions S (0 = before the first locus); tails go with the last section
Child(a, b, S) ==   \* source at 1-based locus j is b iff an odd number of cuts lie before it
    LET src(j) == Cardinality({ s \in S : s < j }) % 2 = 0
        m == Min2(Len(a), Len(b))
        whole == IF src(m + 1) THEN a ELSE b
    IN [ j \in 1..Len(whole) |-> IF j <= m THEN (IF src(j) THEN a[j] ELSE b[j]) ELSE whole[j] ]
CutSets(a, b, n) == { S \in SUBSET (0..(Min2(Len(a), Len(b)) - 1)) : Cardinality(S) = n }
Outcomes(a, b, n) == { <<Child(a, b, S), Child(b, a, S)>> : S \in CutSets(a, b, n) }
\* the same without enumerating the cut sets: the only candidate is the set of places where the first child changes source
IsOutcome(a, b, n, c, d) ==
    LET m == Max2(Len(a), Len(b))
        S == { j \in 0..(m - 1) : Straight(a, b, c, j + 1) # (IF j = 0 THEN TRUE ELSE Straight(a, b, c, j)) }
    IN Cardinality(S) = n /\ S \subseteq 0..(Min2(Len(a), Len(b)) - 1) /\ c = Child(a, b, S) /\ d = Child(b, a, S)
RECURSIVE Choose_(_, _)
Choose_(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k > n THEN 0 ELSE Choose_(n - 1, k - 1) + Choose_(n - 1, k)
----------------------------------------------------------------------------
CONSTANTS MaxLen, MaxPts
VARIABLES a, b, n, S
vars == <<a, b, n, S>>
Toks(base, len) == [ j \in 1..len |-> base + j ]
Init == /\ \E la, lb \in 1..MaxLen : a = Toks(100, la) /\ b = Toks(200, lb)
        /\ n \in 0..MaxPts /\ n <= Min2(Len(a), Len(b)) /\ S \in CutSets(a, b, n)
Next == UNCHANGED vars
Law == LET c == Child(a, b, S)  d == Child(b, a, S) IN
       Conserves(a, b, c, d) /\ Alternations(a, b, c) = n
Candidate == IsOutcome(a, b, n, Child(a, b, S), Child(b, a, S)) /\ ~IsOutcome(a, b, n + 1, Child(a, b, S), Child(b, a, S))
\* distinct cut sets give distinct children; number of outcomes is the binomial coefficient
Distinct == Cardinality(Outcomes(a, b, n)) = Choose_(Min2(Len(a), Len(b)), n)
=============================================================================
