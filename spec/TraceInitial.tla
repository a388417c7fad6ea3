---------------------------- MODULE TraceInitial ----------------------------
EXTENDS LeapCommon, TraceBase
P == INSTANCE Initial WITH Sizes <- {}, Bounds <- <<>>, want <- 0, pop <- <<>>, calls <- 0
VARIABLE i
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "pop" ->
            C("size", Len(e.inds) = e.n)
            \cup C("initializer-calls", e.calls = e.n)
            \cup C("own-genome", \A k \in 1..Len(e.inds) : e.inds[k].genome = k)      \* k-th individual has the k-th fresh genome
            \cup C("class", \A k \in 1..Len(e.inds) : e.inds[k].cls)
            \cup C("problem", \A k \in 1..Len(e.inds) : e.inds[k].problem) \cup C("decoder", \A k \in 1..Len(e.inds) : e.inds[k].decoder)
            \cup C("fitness", \A k \in 1..Len(e.inds) : e.inds[k].fit = None) \cup C("parents", \A k \in 1..Len(e.inds) : e.inds[k].parents = 0)
            \cup C("unique-id", IsInj(e.ids)) \cup C("distinct-objects", IsInj(e.objs)) \cup C("unique-birth", IsInj(e.births))
            \cup C("is-list", e.islist)
      [] e.kind = "ints" ->     \* counts[l][v - lo + 1]; joint: counts of pairs of values at two different loci
            C("length", e.lenok) \cup C("in-bounds", e.inb) \cup C("integers", e.types) \cup C("shared-storage", e.indep)
            \cup C("value-frequency", \A l \in 1..Len(e.bounds) : LET w == e.bounds[l][2] - e.bounds[l][1] + 1 IN
                   SumSeq(e.counts[l]) = e.N /\ \A v \in 1..w : FreqOK(e.counts[l][v], e.N, 1, w, 60))
            \cup C("loci-independent", \A q \in 1..Len(e.joint) : \A v \in 1..Len(e.joint[q].counts) : FreqOK(e.joint[q].counts[v], e.N, 1, e.joint[q].cells, 60))
            \cup C("genomes-independent", \A q \in 1..Len(e.serial) : \A v \in 1..Len(e.serial[q].counts) : FreqOK(e.serial[q].counts[v], e.serial[q].n, 1, e.serial[q].cells, 80))
            \cup C("bounds-changed", e.same)
      [] e.kind = "reals" ->      \* quarters of the range per locus
            C("length", e.lenok) \cup C("in-bounds", e.inb) \cup C("shared-storage", e.indep) \cup C("bounds-changed", e.same)
            \cup C("value-frequency", \A l \in 1..Len(e.bounds) : e.bounds[l][1] = e.bounds[l][2] \/ \A v \in 1..4 : FreqOK(e.counts[l][v], e.N, 1, 4, 60))
            \cup C("loci-independent", \A q \in 1..Len(e.joint) : \A v \in 1..4 : FreqOK(e.joint[q][v], e.N, 1, 4, 60))
      [] e.kind = "segmented" ->
            C("segment-count", e.got = e.want) \cup C("own-segments", e.ids = [ k \in 1..Len(e.ids) |-> k ])
      [] e.kind = "long" -> C("length", e.lenok) \cup C("out-of-bounds", e.inb) \cup C("shared-genomes", e.indep) \cup C("gene-constant", e.stuck = 0)
                            \cup C("not-uniform", ~e.inb \/ \A k \in 1..4 : IF e.binary THEN (IF k % 2 = 1 THEN FreqOKs(e.q[k], e.total, 1, 2, 70) ELSE e.q[k] = 0) ELSE FreqOKs(e.q[k], e.total, 1, 4, 70))
      [] e.kind = "bulk" -> C("not-uniform", SumSeq(e.counts) = e.total /\ \A k \in 1..e.cells : FreqOKs(e.counts[k], e.total, 1, e.cells, 12))
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
