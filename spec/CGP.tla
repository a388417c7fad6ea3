-------------------------------- MODULE CGP --------------------------------
(* P25: Cartesian genetic programming.  A shape is                                   *)
(*   [nin, nout, layers, npl, arity, lb, prims, npar]; node ids count inputs first,   *)
(* then the grid column by column.  A primitive is [ar, c, w, nand]: its value is     *)
(* (c + sum of w[k] * argument k) mod 7, or NAND of two bits; ar = -1 means the       *)
(* primitive declares no arity and receives all max-arity inputs.                     *)
EXTENDS LeapCommon
NNodes(s) == s.layers * s.npl
NGenes(s) == NNodes(s) * (s.arity + 1) + s.nout
LayerOf(s, n) == (n - s.nin) \div s.npl                    \* n: node id of a computational node
SrcLo(s, l) == IF l = 0 \/ l < s.lb THEN 0 ELSE s.nin + (l - s.lb) * s.npl
SrcHi(s, l) == s.nin - 1 + l * s.npl
\* bounds of gene g (1-based), by the meaning of the gene
GeneLo(s, g) == IF g > NNodes(s) * (s.arity + 1) THEN 0
    ELSE IF (g - 1) % (s.arity + 1) = 0 THEN 0 ELSE SrcLo(s, ((g - 1) \div (s.arity + 1)) \div s.npl)
GeneHi(s, g) == IF g > NNodes(s) * (s.arity + 1) THEN s.nin + NNodes(s) - 1
    ELSE IF (g - 1) % (s.arity + 1) = 0 THEN Len(s.prims) - 1 ELSE SrcHi(s, ((g - 1) \div (s.arity + 1)) \div s.npl)
Valid(s, gen) == Len(gen) = NGenes(s) /\ \A g \in 1..Len(gen) : GeneLo(s, g) <= gen[g] /\ gen[g] <= GeneHi(s, g)
\* decoded circuit
Base(s, n) == (n - s.nin) * (s.arity + 1)
PrimOf(s, gen, n) == s.prims[gen[Base(s, n) + 1] + 1]
Used(s, p) == IF p.ar = -1 THEN s.arity ELSE Min2(p.ar, s.arity)
Sources(s, gen, n) == [ k \in 1..Used(s, PrimOf(s, gen, n)) |-> gen[Base(s, n) + 1 + k] ]
OutSrc(s, gen, o) == gen[NNodes(s) * (s.arity + 1) + o]
Apply(p, args) == IF p.nand THEN (IF args[1] # 0 /\ args[2] # 0 THEN 0 ELSE 1)
    ELSE (p.c + SumSeq([ k \in 1..Len(args) |-> p.w[k] * args[k] ])) % 7
Params(s, par, n) == SubSeq(par, (n - s.nin) * s.npar + 1, (n - s.nin + 1) * s.npar)
RECURSIVE Value(_, _, _, _, _)
Value(s, gen, par, in, n) ==
    IF n < s.nin THEN in[n + 1]
    ELSE LET src == Sources(s, gen, n) IN
         Apply(PrimOf(s, gen, n), [ k \in 1..Len(src) |-> Value(s, gen, par, in, src[k]) ] \o Params(s, par, n))
Outputs(s, gen, par, in) == [ o \in 1..s.nout |-> Value(s, gen, par, in, OutSrc(s, gen, o)) ]
\* pruning: nodes some output depends on, renumbered in order
RECURSIVE Needs(_, _, _)
Needs(s, gen, n) == {n} \cup (IF n < s.nin THEN {} ELSE UNION { Needs(s, gen, Sources(s, gen, n)[k]) : k \in 1..Len(Sources(s, gen, n)) })
Needed(s, gen) == (0..(s.nin - 1)) \cup UNION { Needs(s, gen, OutSrc(s, gen, o)) : o \in 1..s.nout }
\* evaluating the needed nodes one after another in id order
RECURSIVE Sweep(_, _, _, _, _, _)
Sweep(s, gen, par, in, todo, val) ==
    IF todo = {} THEN val
    ELSE LET n == SetMin(todo)
             v == IF n < s.nin THEN in[n + 1] ELSE Apply(PrimOf(s, gen, n), [ k \in 1..Len(Sources(s, gen, n)) |-> val[Sources(s, gen, n)[k]] ] \o Params(s, par, n))
         IN Sweep(s, gen, par, in, todo \ {n}, [ m \in DOMAIN val \cup {n} |-> IF m = n THEN v ELSE val[m] ])
\* all nodes in id order: the same outputs, without recomputing shared nodes
RECURSIVE SweepAll(_, _, _, _, _)
SweepAll(s, gen, par, in, val) ==      \* val[n + 1]: value of node n
    LET n == Len(val) IN
    IF n = s.nin + NNodes(s) THEN val
    ELSE SweepAll(s, gen, par, in, Append(val, IF n < s.nin THEN in[n + 1]
             ELSE Apply(PrimOf(s, gen, n), [ k \in 1..Len(Sources(s, gen, n)) |-> val[Sources(s, gen, n)[k] + 1] ] \o Params(s, par, n))))
OutputsBySweep(s, gen, par, in) == LET v == SweepAll(s, gen, par, in, <<>>) IN [ o \in 1..s.nout |-> v[OutSrc(s, gen, o) + 1] ]
------------------------------------------------------------------------------
CONSTANTS NIn, NOut, Layers, PerLayer, Arity, Back
VARIABLE gen
Shape == [nin |-> NIn, nout |-> NOut, layers |-> Layers, npl |-> PerLayer, arity |-> Arity, lb |-> Back, npar |-> 0,
          prims |-> << [ar |-> 2, c |-> 1, w |-> <<2, 3>>, nand |-> FALSE], [ar |-> 1, c |-> 5, w |-> <<6>>, nand |-> FALSE] >>]
Init == gen = <<>>
Add == Len(gen) < NGenes(Shape) /\ \E v \in GeneLo(Shape, Len(gen) + 1)..GeneHi(Shape, Len(gen) + 1) : gen' = Append(gen, v)
Next == Add
Spec == Init /\ [][Next]_gen
Full == Len(gen) = NGenes(Shape)
BuiltValid == Full => Valid(Shape, gen)
Feasible == \A g \in 1..NGenes(Shape) : GeneLo(Shape, g) <= GeneHi(Shape, g)
\* sources point strictly to earlier layers, not further back than allowed: the graph is acyclic
Acyclic == Full => \A n \in NIn..(NIn + NNodes(Shape) - 1) : \A k \in 1..Len(Sources(Shape, gen, n)) :
    LET m == Sources(Shape, gen, n)[k] IN m < NIn \/ (LayerOf(Shape, m) < LayerOf(Shape, n) /\ LayerOf(Shape, n) - LayerOf(Shape, m) <= Back)
PruneSound == Full => \A in \in [1..NIn -> {0, 3}] :
    LET v == Sweep(Shape, gen, <<>>, in, Needed(Shape, gen), <<>>) IN
    [ o \in 1..NOut |-> v[OutSrc(Shape, gen, o)] ] = Outputs(Shape, gen, <<>>, in)
SweepSound == Full => \A in \in [1..NIn -> {0, 3}] : OutputsBySweep(Shape, gen, <<>>, in) = Outputs(Shape, gen, <<>>, in)
=============================================================================
