---------------------------- MODULE GenCircuits ----------------------------
(* Every valid genome of a few small shapes, and every shape of a range (for bounds and validity). *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Deep
VARIABLE d
G == INSTANCE CGP WITH NIn <- 1, NOut <- 1, Layers <- 1, PerLayer <- 1, Arity <- 1, Back <- 1, gen <- <<>>
W == << [ar |-> 2, c |-> 1, w |-> <<2, 3, 4, 5>>, nand |-> FALSE], [ar |-> 1, c |-> 5, w |-> <<6, 1, 2>>, nand |-> FALSE],
        [ar |-> -1, c |-> 0, w |-> <<3, 5, 1, 2, 4>>, nand |-> FALSE], [ar |-> 0, c |-> 4, w |-> <<2, 3>>, nand |-> FALSE],
        [ar |-> 2, c |-> 0, w |-> <<>>, nand |-> TRUE] >>
Sh(a, b, c, e, f, l, p) == [nin |-> a, nout |-> b, layers |-> c, npl |-> e, arity |-> f, lb |-> l, npar |-> 0, prims |-> p]
Small == { Sh(1, 1, 2, 1, 1, 1, <<W[1], W[2]>>), Sh(2, 1, 1, 1, 2, 1, <<W[1], W[2], W[4]>>), Sh(1, 2, 1, 2, 1, 1, <<W[2], W[3]>>),
           Sh(1, 1, 2, 1, 2, 1, <<W[1], W[5]>>), Sh(1, 1, 2, 1, 2, 2, <<W[3], W[1]>>), Sh(2, 2, 1, 1, 2, 1, <<W[5], W[3]>>) }
         \cup (IF Deep THEN { Sh(2, 1, 2, 1, 2, 2, <<W[1], W[2]>>), Sh(1, 1, 3, 1, 1, 2, <<W[2], W[3], W[4]>>), Sh(1, 1, 2, 2, 1, 1, <<W[1], W[2]>>) } ELSE {})
RECURSIVE Extend(_, _, _)
Extend(s, n, S) == IF n > G!NGenes(s) THEN S ELSE Extend(s, n + 1, { Append(g, v) : g \in S, v \in G!GeneLo(s, n)..G!GeneHi(s, n) })
Genomes(s) == SetToSeq(Extend(s, 1, {<<>>}))
Shapes == { Sh(a, b, c, e, f, l, <<W[1], W[2]>>) : a \in 1..3, b \in 1..2, c \in 1..4, e \in 1..3, f \in 1..3, l \in 1..4 }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, [ k \in 1..Cardinality(Small) |-> LET s == SetToSeq(Small)[k] IN [what |-> "circuits", shape |-> s, genomes |-> Genomes(s)] ]
                 \o SetToSeq({ [what |-> "shape", shape |-> s] : s \in { t \in Shapes : t.lb <= t.layers } }) \o << [what |-> "prims", prims |-> W] >>)
Next == UNCHANGED d
=============================================================================
