---------------------------- MODULE TraceProblems ----------------------------
EXTENDS LeapCommon, TraceBase
P == INSTANCE Problems WITH MaxLen <- 0, MaxGen <- 0, NProb <- 1, Modulo <- 1, str <- <<>>, now <- 0, evals <- <<>>
VARIABLE i
RECURSIVE Rep(_, _)
Rep(s, n) == IF s = <<>> THEN <<>> ELSE [ k \in 1..n |-> Head(s) ] \o Rep(Tail(s), n)
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "bits" ->
            C("max-ones", e.maxones = P!MaxOnes(e.s, e.t)) \cup C("leading-ones", e.leading = P!LeadingOnes(e.s, e.t))
            \cup (IF e.target THEN {} ELSE C("two-max", e.twomax = P!TwoMax(e.s)) \cup C("trap", e.trap = P!Trap(e.s)))
            \cup C("phenome-changed", e.same) \cup C("direction", e.dirs)
      [] e.kind = "alt" ->
            C("active-evaluates", e.by = [ k \in 1..Len(e.gens) |-> P!Active(e.gens[k], e.modulo, e.np) ])
            \cup C("active-returns", e.fit = [ k \in 1..Len(e.gens) |-> 100 * P!Active(e.gens[k], e.modulo, e.np) + k ])
            \cup C("active-compares", e.worse = [ k \in 1..Len(e.gens) |-> P!Active(e.gens[k], e.modulo, e.np) % 2 = 1 ])
            \cup C("active-equivalent", e.equiv = [ k \in 1..Len(e.gens) |-> <<P!Active(e.gens[k], e.modulo, e.np)>> ])
      [] e.kind = "batch" -> C("batch-values", e.got = [ q \in 1..e.n |-> 10 * ((q - 1) % 7) + ((q - 1) % 3) ])
      [] e.kind = "tt" ->      \* score times number of rows
            LET rows == Pow(2, e.nin)  good == Cardinality({ v \in 1..rows : e.prog[v] = e.want[v] }) IN
            C("truth-table-score", e.score = good)
            \cup C("truth-table-rows", Elems(e.seen) = { P!TTRow(v - 1, e.nin) \o [ q \in 1..e.pad |-> 0 ] : v \in 1..rows })
      [] e.kind = "avg" ->     \* vals: the values the wrapped problem returned, in order; fits times n
            C("evaluation-count", Len(e.vals) = e.n * Len(e.phs))
            \cup C("which-phenomes", \A v \in Elems(e.phs) \cup Elems(e.got) : Count(e.got, v) = e.n * Count(e.phs, v))
            \cup C("mean", (Len(e.got) = Len(e.vals) /\ Len(e.fits) = Len(e.phs)) =>
                 \A v \in Elems(e.phs) : IF \E k \in 1..Len(e.got) : e.got[k] = v /\ e.vals[k] = NaN THEN \A k \in 1..Len(e.phs) : e.phs[k] = v => e.fits[k] = NaN ELSE SumSeq([ k \in 1..Len(e.phs) |-> IF e.phs[k] = v THEN e.fits[k] ELSE 0 ]) = SumSeq([ k \in 1..Len(e.got) |-> IF e.got[k] = v THEN e.vals[k] ELSE 0 ]))
            \cup C("fitness-per-phenome", Len(e.fits) = Len(e.phs))
            \cup C("comparison", e.cmp)
      [] e.kind = "offset" -> C("offset", e.fits = [ k \in 1..Len(e.vals) |-> e.vals[k] + e.c ]) \cup C("direction", e.dir) \cup C("calls", e.calls = Len(e.vals))
      [] e.kind = "constant" -> C("constant", \A k \in 1..Len(e.fits) : e.fits[k] = e.c)
      [] e.kind = "constop" -> C("constant-evaluation", e.fits = [ k \in 1..e.n |-> e.c ] /\ e.calls = 0 /\ e.same)
      [] e.kind = "ext" ->
            IF e.mode = "ok" THEN C("external-refused", e.err = "") \cup C("external-fitness", e.err # "" \/ e.fits = [ k \in 1..Len(e.phs) |-> 10 * SumSeq(e.phs[k]) + e.phs[k][1] ])
            ELSE C("external-failure-ignored", e.err # "" \/ (e.mode \in {"few", "junk"} /\ e.phs = <<>>))
      [] e.kind = "extra" -> C("arguments-not-forwarded", e.ok)
      [] e.kind = "extexact" -> C("external-precision", e.back = e.ms)
      [] e.kind = "direction" -> C("direction", e.less = e.up /\ e.more = ~e.up /\ ~e.eq /\ e.same /\ ~e.other)
      [] e.kind = "env" ->
            LET lens == [ r \in 1..Len(e.done) |-> P!EpisodeLen(e.done[r], e.lim, e.stop) ] IN
            C("runs", e.resets = Len(e.done)) \cup C("steps", e.steps = lens)
            \cup C("actions", e.actsok) \cup C("environment-direction", e.mx = <<TRUE, TRUE, FALSE>>)
            \cup C("rendering", e.shown)
            \cup C("reward", e.reward = SumSeq([ r \in 1..Len(lens) |-> SumSeq([ k \in 1..lens[r] |-> 10 * r + k ]) ]))
            \cup C("survival", e.survival = SumSeq([ r \in 1..Len(lens) |-> lens[r] + 1 ]))
      [] e.kind = "dims" -> C("input-dimensions", e.nin = P!Dims(e.obs) /\ e.sin = P!Dims(e.obs)) \cup C("output-dimensions", e.nout = P!Dims(e.act))
      [] e.kind = "image" -> C("image-match", e.fit = Cardinality({ k \in 1..Len(e.img) : e.img[k] = e.ph[k] }))
      [] e.kind = "imagexy" -> C("image-distance", e.fit2 = SumSeq([ k \in 1..Len(e.img) |-> SumSeq([ c \in 1..3 |-> (e.img[k][c] - e.gen[k][c]) * (e.img[k][c] - e.gen[k][c]) ]) ]))
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
