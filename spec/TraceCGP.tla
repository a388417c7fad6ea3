------------------------------ MODULE TraceCGP ------------------------------
EXTENDS LeapCommon, TraceBase
G == INSTANCE CGP WITH NIn <- 1, NOut <- 1, Layers <- 1, PerLayer <- 1, Arity <- 1, Back <- 1, gen <- <<>>
VARIABLE i
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    LET s == e.shape  N == G!NGenes(s) IN
    CASE e.kind = "bounds" ->
            C("gene-count", e.ngenes = N /\ Len(e.lo) = N /\ Len(e.hi) = N)
            \cup C("bounds", e.lo = [ g \in 1..N |-> G!GeneLo(s, g) ] /\ e.hi = [ g \in 1..N |-> G!GeneHi(s, g) ])
            \cup C("node-count", e.nnodes = s.nin + G!NNodes(s) + s.nout)
      [] e.kind = "check" ->
            C("valid-rejected", \A k \in 1..Len(e.genomes) : (e.ints[k] /\ G!Valid(s, e.genomes[k])) => e.accepted[k])
            \cup C("invalid-accepted", \A k \in 1..Len(e.genomes) : e.accepted[k] => (e.ints[k] /\ G!Valid(s, e.genomes[k])))
            \cup C("handed-on-others", e.same)
      [] e.kind = "run" ->      \* ins: input vectors; outs[q][k]: outputs of execution q on input k (pruned, unpruned, repeated, ...)
            LET want == IF G!NNodes(s) > 9 THEN [ k \in 1..Len(e.ins) |-> G!OutputsBySweep(s, e.genome, e.par, e.ins[k]) ] ELSE <<>> IN
            C("outputs", \A q \in 1..Len(e.outs) : \A k \in 1..Len(e.ins) : e.outs[q][k] = (IF G!NNodes(s) > 9 THEN want[k] ELSE G!Outputs(s, e.genome, e.par, e.ins[k])))
            \cup C("genome-changed", e.same)
      [] e.kind = "origin" ->     \* genomes from initialisers or mutation; seen[g]: values seen at gene g
            C("invalid-genome", e.valid = TRUE /\ \A k \in 1..Len(e.genomes) : G!Valid(s, e.genomes[k]))
            \cup C("unreachable-value", \A g \in 1..N : Elems(e.seen[g]) = G!GeneLo(s, g)..G!GeneHi(s, g))
            \cup C("parameters", e.parok)
            \cup C("not-independent", e.indep)
      [] e.kind = "access" ->
            C("primitive", \A n \in 1..G!NNodes(s) : e.fn[n] = e.genome[(n - 1) * (s.arity + 1) + 1])
            \cup C("sources", \A n \in 1..G!NNodes(s) : e.src[n] = SubSeq(e.genome, (n - 1) * (s.arity + 1) + 2, n * (s.arity + 1)))
            \cup C("out-sources", e.out = SubSeq(e.genome, N - s.nout + 1, N))
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
