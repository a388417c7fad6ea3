---------------------------- MODULE TraceMutation ----------------------------
EXTENDS LeapCommon, TraceBase
M == INSTANCE Mutation WITH Len_ <- 1, Lo <- 0, Hi <- 0, MaxSteps <- 0, kind <- "bit", g0 <- <<>>, g <- <<>>, j <- 1
VARIABLE i
\* outs: distinct observed genomes with counts n
Hits(e, P(_)) == SumSeq([ o \in 1..Len(e.outs) |-> IF P(e.outs[o].g) THEN e.outs[o].n ELSE 0 ])
Shape(e) == C("length", \A o \in 1..Len(e.outs) : Len(e.outs[o].g) = Len(e.g)) \cup C("type-or-identity", e.typeok)
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "bitflip" ->
            Shape(e) \cup C("not-a-bit", \A o \in 1..Len(e.outs) : Elems(e.outs[o].g) \subseteq {0, 1})
            \cup (IF Shape(e) # {} THEN {} ELSE
                  C("flips-with-zero-probability", e.pn > 0 \/ \A o \in 1..Len(e.outs) : e.outs[o].g = e.g)
                  \cup C("misses-with-probability-one", e.pn < e.pd \/ \A o \in 1..Len(e.outs) : \A j \in 1..Len(e.g) : e.outs[o].g[j] # e.g[j])
                  \cup (IF e.stat THEN
                     C("flip-probability", \A j \in 1..Len(e.g) : LET F(h) == h[j] # e.g[j] IN FreqOK(Hits(e, F), e.n, e.pn, e.pd, 70))
                     \cup C("flips-not-independent", \A j, k \in 1..Len(e.g) : j < k => LET F(h) == h[j] # e.g[j] /\ h[k] # e.g[k] IN FreqOK(Hits(e, F), e.n, e.pn * e.pn, e.pd * e.pd, 70))
                  ELSE {}))
      [] e.kind = "bitmany" ->
            C("type-or-identity", e.typeok) \cup C("not-a-bit", e.nonbit = 0)
            \cup C("flips-with-zero-probability", e.pn > 0 \/ e.total = 0)
            \cup C("misses-with-probability-one", e.pn < e.pd \/ e.total = e.n * e.len)
            \cup C("flip-probability", (e.n * e.len * e.pn) \div e.pd < 1000 \/ RelOK(e.total, e.n * e.len, e.pn, e.pd))
            \cup C("bit-never-flipped", e.pn * e.n < 40 * e.pd \/ \A j \in 1..e.len : e.hits[j] > 0)
            \cup C("bit-always-flipped", (e.pd - e.pn) * e.n < 40 * e.pd \/ \A j \in 1..e.len : e.hits[j] < e.n)
      [] e.kind = "intwide" ->
            C("type-or-identity", e.typeok) \cup C("outside-domain", e.outside = 0)
            \cup C("selection-probability", FreqOKs(e.changed, e.n, e.pn, e.pd, 70))
            \cup C("not-uniform", \A k \in 1..4 : FreqOKs(e.q[k], e.changed, 1, 4, 70))
      [] e.kind = "randint" ->
            Shape(e)
            \cup (IF Shape(e) # {} THEN {} ELSE
                  C("outside-domain", \A o \in 1..Len(e.outs) : M!InInt(e.g, e.outs[o].g, e.bounds))
                  \cup C("changes-with-zero-probability", e.pn > 0 \/ \A o \in 1..Len(e.outs) : e.outs[o].g = e.g)
                  \cup C("misses-with-probability-one", e.pn < e.pd \/ \A o \in 1..Len(e.outs) : M!InBounds(e.outs[o].g, e.bounds))
                  \cup (IF e.stat THEN
                     C("value-probability", \A j \in 1..Len(e.g) : \A v \in (e.bounds[j][1]..e.bounds[j][2]) \cup {e.g[j]} :
                         LET F(h) == h[j] = v IN
                         FreqOK(Hits(e, F), e.n, M!IntNum(e.g[j], e.bounds[j][1], e.bounds[j][2], e.pn, e.pd, v), e.pd * (e.bounds[j][2] - e.bounds[j][1] + 1), 70))
                     \cup C("value-unreachable", \A j \in 1..Len(e.g) : \A v \in e.bounds[j][1]..e.bounds[j][2] : \E o \in 1..Len(e.outs) : e.outs[o].g[j] = v)
                     \cup C("values-not-independent", e.pn < e.pd \/ \A j, k \in 1..Len(e.g) : j < k =>
                            \A v \in e.bounds[j][1]..e.bounds[j][2], w \in e.bounds[k][1]..e.bounds[k][2] :
                              LET F(h) == h[j] = v /\ h[k] = w IN
                              FreqOK(Hits(e, F), e.n, 1, (e.bounds[j][2] - e.bounds[j][1] + 1) * (e.bounds[k][2] - e.bounds[k][1] + 1), 70))
                     \cup C("genes-not-independent", \A j, k \in 1..Len(e.g) : j < k /\ e.g[j] \notin e.bounds[j][1]..e.bounds[j][2] /\ e.g[k] \notin e.bounds[k][1]..e.bounds[k][2] =>
                            LET F(h) == h[j] # e.g[j] /\ h[k] # e.g[k] IN FreqOK(Hits(e, F), e.n, e.pn * e.pn, e.pd * e.pd, 70))
                  ELSE {}))
      [] e.kind = "narrow" -> C("noise-width", e.far = 0) \cup C("outside-bounds", e.outside = 0) \cup C("type-or-length-changed", e.typeok)
      [] e.kind = "clip" ->         \* noise mutators: every observed gene inside its bounds; zero rate or width changes nothing
            Shape(e) \cup C("out-of-bounds", e.outside = 0)
            \cup C("in-bounds-gene-changed", ~e.frozen \/ e.moved = 0)
            \cup C("clipped-gene-not-at-its-bound", e.wrongclip = 0)
      [] e.kind = "transform" -> C("linear-transform", e.wrong = 0) \cup C("type-or-identity", e.typeok)
      [] e.kind = "noise" ->        \* counters over n genes: changed, of the changed (m): positive, inside 50% and 90% quantiles
            C("selection-probability", FreqOK(e.changed, e.n, e.pn, e.pd, 70))
            \cup C("not-zero-centred", FreqOK(e.positive, e.changed, 1, 2, 70))
            \cup C("width-half", FreqOK(e.in50, e.changed, 1, 2, 70))
            \cup C("width-ninety", FreqOK(e.in90, e.changed, 9, 10, 70))
            \cup C("genes-not-independent", FreqOK(e.both, e.pairs, e.pn * e.pn, e.pd * e.pd, 70))
            \cup C("noise-not-independent", FreqOK(e.bothpositive, e.both, 1, 4, 70))
      [] e.kind = "intnoise" ->     \* integer noise of standard deviation std: sums over n mutated genes
            C("not-zero-centred", Abs(e.sum) <= (e.n * e.std) \div 6 + e.n)
            \cup C("width", e.sumsq * 100 >= e.n * (e.std * e.std) * 70 /\ e.sumsq * 100 <= e.n * (e.std * e.std + 2) * 130)
            \cup C("selection-probability", IF e.pn * 10 < e.pd /\ e.pn > 0 THEN 100 * e.changed >= 60 * ((e.total * e.pn) \div e.pd) /\ 10 * e.changed <= 13 * ((e.total * e.pn) \div e.pd) ELSE FreqOK(e.changed, e.total, e.pn, e.pd, 90))
            \cup C("not-integer", e.integers)
            \cup C("noise-not-independent", e.signs < 1500 \/ FreqOK(e.agree, e.signs, 1, 2, 100))
      [] e.kind = "flips" -> C("beyond-the-coin-flips", e.beyond = 0) \cup C("flip-distribution", e.flips # 4 \/ \A k \in 1..5 : FreqOKs(e.freq[k], e.n, <<1, 4, 6, 4, 1>>[k], 16, 70))
      [] e.kind = "ownstd" -> C("gene-of-zero-width-moved", e.still = 0) \cup C("moved-by-another-genes-width", e.off = 0)
                               \cup C("selection-probability", FreqOKs(e.hits, e.n, e.pn, e.pd, 70))
      [] e.kind = "mixlens" -> C("selection-probability", \A j \in 1..Len(e.lens) : FreqOKs(e.hits[j], e.n, 1, 1, 130))
      [] e.kind = "rejected" -> C("accepted-bad-arguments", e.error # "")
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
