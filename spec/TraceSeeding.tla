---------------------------- MODULE TraceSeeding ----------------------------
EXTENDS LeapCommon, TraceBase
S == INSTANCE Seeding WITH MaxOps <- 0, MaxPop <- 0, Sols <- {}, store <- <<>>, file <- <<>>, pops <- <<>>, ops <- 0
VARIABLE i
\* state of the repertoire after each step of the history: <<store, file>>
RECURSIVE After(_, _)
After(h, k) == IF k = 0 THEN << <<>>, <<-1>> >>
               ELSE LET s == After(h, k - 1) IN
                    CASE h[k].op = "build" -> <<s[1] \o h[k].sols, s[2]>>
                      [] h[k].op = "export" -> <<s[1], s[1]>>
                      [] h[k].op = "reload" -> IF s[2] = <<-1>> THEN s ELSE <<s[2], s[2]>>
                      [] OTHER -> s
PickUse(use, w) == Cardinality({ k \in 1..Len(use) : use[k] = w })
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "hist" ->
            C("stored-solutions", \A k \in 1..Len(e.h) : e.obs[k].store = After(e.h, k)[1])
            \cup C("array-genomes", \A k \in 1..Len(e.h) : e.obs[k].arrays)
            \cup C("file", \A k \in 1..Len(e.h) : e.h[k].op = "export" => e.obs[k].file = After(e.h, k)[1])
            \cup C("seeded-population", \A k \in 1..Len(e.h) : e.h[k].op = "apply" => e.obs[k].pop = S!Handed(After(e.h, k)[1], e.h[k].n))
            \cup C("training-population", \A k \in 1..Len(e.h) : e.h[k].op = "build" => e.obs[k].pop = [ q \in 1..(2 * Len(e.h[k].sols)) |-> 0 ])
            \cup C("once-per-problem", \A k \in 1..Len(e.h) : e.obs[k].calls = (CASE e.h[k].op = "build" -> e.h[k].sols [] e.h[k].op = "apply" -> <<9>> [] OTHER -> <<>>))
            \cup C("arguments", \A k \in 1..Len(e.h) : e.obs[k].args)
            \cup C("result", \A k \in 1..Len(e.h) : e.h[k].op = "apply" => e.obs[k].result)
      [] e.kind = "inits" ->
            C("own-position", \A w \in {1, 2} : e.got[w] = S!Handed(e.seeds, PickUse(e.use, w)))
            \cup C("fresh-calls", e.fresh = Cardinality({ k \in 1..Len(e.use) : Cardinality({ q \in 1..k : e.use[q] = e.use[k] }) > Len(e.seeds) }))
            \cup C("seeds-changed", e.seedsame)
      [] e.kind = "create" ->
            C("population", e.pop = S!Handed(e.seeds, e.n)) \cup C("individuals", e.ok)
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
