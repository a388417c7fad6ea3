---------------------------- MODULE TraceProbes ----------------------------
EXTENDS LeapCommon, TraceBase
P == INSTANCE Probes WITH Vals <- {}, N <- 0, Gens <- 0, Modulo <- 1, mx <- TRUE, gen <- 0, seen <- {}, bsf <- 0, rows <- <<>>, last <- <<>>
VARIABLE i
Common(e) == C("handed-on-others", e.handed) \cup C("individuals-changed", e.untouched)
Hist(e, k) == P!Flat(SubSeq(e.pops, 1, k))
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "bsf" ->
            Common(e) \cup C("header", e.header = e.wantheader)
            \cup C("row-count", Len(e.rows) = Len(e.pops))
            \cup (IF Len(e.rows) # Len(e.pops) THEN {} ELSE
                  C("step", \A k \in 1..Len(e.rows) : e.rows[k].step = e.gens[k])
                  \cup C("bsf", \A k \in 1..Len(e.rows) : P!IsBest(e.max, Hist(e, k), e.rows[k].bsf)))
      [] e.kind = "bsf-iter" ->     \* pops here is one flat stream, gens one per individual
            Common(e) \cup C("header", e.header = e.wantheader) \cup C("row-count", Len(e.rows) = Len(e.fits))
            \cup (IF Len(e.rows) # Len(e.fits) THEN {} ELSE
                  C("step", \A k \in 1..Len(e.rows) : e.rows[k].step = e.gens[k])
                  \cup C("bsf", \A k \in 1..Len(e.rows) : P!IsBest(e.max, SubSeq(e.fits, 1, k), e.rows[k].bsf)))
      [] e.kind = "stats" ->
            LET due == P!Due(e.gens, e.modulo) IN
            Common(e) \cup C("header", e.header = e.wantheader) \cup C("comment", e.comments = e.wantcomments)
            \cup C("row-count", Len(e.rows) = Len(due))
            \cup (IF Len(e.rows) # Len(due) THEN {} ELSE
                  C("step", \A k \in 1..Len(due) : e.rows[k].step = e.gens[due[k]])
                  \cup C("bsf", \A k \in 1..Len(due) : P!IsBest(e.max, Hist(e, due[k]), e.rows[k].bsf))
                  \cup C("mean", \A k \in 1..Len(due) : P!MeanOK(e.pops[due[k]], e.rows[k].mean))
                  \cup C("std", \A k \in 1..Len(due) : P!StdOK(e.pops[due[k]], e.rows[k].std))
                  \cup C("min", \A k \in 1..Len(due) : e.rows[k].min = P!Lo(e.pops[due[k]]))
                  \cup C("max", \A k \in 1..Len(due) : e.rows[k].max = P!Hi(e.pops[due[k]]))
                  \cup C("job-notes", \A k \in 1..Len(due) : e.rows[k].lead = e.wantlead)
                  \cup C("extras", \A k \in 1..Len(due) : e.rows[k].trail = [ m \in 1..Len(e.extras) |->
                            IF e.extras[m] = "n" THEN ToString(Len(e.pops[due[k]])) ELSE ToString(e.pops[due[k]][1]) ]))
      [] e.kind = "attrs" ->
            LET cols == P!Columns(e)
                \* which individuals of each population are reported
                idx(k) == [ j \in 1..Len(e.pops[k]) |-> <<k, j>> ]
                cell(c, k, j) ==
                    CASE c = "job" -> e.jobval
                      [] c = "step" -> ToString(e.gens[k])
                      [] c = "fitness" -> ToString(e.pops[k][j])
                      [] c = "genome" -> ToString(e.genomes[k][j])
                      [] c = "foo" -> ToString(e.foo[k][j])
                      [] c = "bar" -> ToString(e.bar[k][j])
                      [] c = "twice" -> ToString(2 * e.gens[k])
                      [] c = "cnt" -> "7"
                      [] OTHER -> "note-" \o c
                row(k, j) == [ m \in 1..Len(cols) |-> cell(cols[m], k, j) ]
                RECURSIVE Off(_)
                Off(k) == IF k = 1 THEN 0 ELSE Off(k - 1) + (IF e.best THEN 1 ELSE Len(e.pops[k - 1]))
                total == Off(Len(e.pops) + 1)
                RowsOK(rows) ==
                    /\ Len(rows) = total
                    /\ \A k \in 1..Len(e.pops) :
                         IF e.best THEN \E j \in P!BestIdx(e.max, e.pops[k]) : rows[Off(k) + 1] = row(k, j)
                         ELSE \A j \in 1..Len(e.pops[k]) : rows[Off(k) + j] = row(k, j)
            IN Common(e) \cup C("header", e.header = (IF e.hdr THEN cols ELSE <<>>))
               \cup C("rows", e.nostream \/ RowsOK(e.rows))
               \cup C("dataframe", ~e.df \/ (e.dfcols = cols /\ RowsOK(e.dfrows)))
      [] e.kind = "misuse" -> C("misuse-accepted", e.err # "")
      [] e.kind = "metrics" ->
            C("pairwise", e.pair = 10 * P!PairSum(e.gs)) \cup C("fixated", e.fix = P!Fixated(e.gs))
            \cup C("variances", Abs(e.var * Len(e.gs) * Len(e.gs) - 100 * P!VarTimesN2(e.gs)) <= Len(e.gs) * Len(e.gs))
      [] e.kind = "exact" -> C("digits-dropped-stats", e.stats) \cup C("digits-dropped-attributes", e.attrs /\ e.frame) \cup C("digits-dropped-best", e.best)
      [] e.kind = "print" -> Common(e) \cup C("text", e.text = e.want) \cup C("not-flushed", "live" \notin DOMAIN e \/ e.live)
      [] e.kind = "logpop" ->
            LET due == SelectSeq([ k \in 1..Len(e.pops) |-> k ], LAMBDA k : (k - 1) % e.interval = 0)
                want == P!Flat([ m \in 1..Len(due) |-> [ j \in 1..Len(e.pops[due[m]]) |->
                            <<ToString(due[m] - 1), e.ids[due[m]][j], e.births[due[m]][j], e.starts[due[m]][j], e.stops[due[m]][j], ToString(e.pops[due[m]][j])>> ] ])
            IN C("rows", e.rows = want) \cup C("header", e.header = e.wantheader) \cup C("individuals-changed", e.untouched) \cup C("not-flushed", e.live)
      [] e.kind = "plot" ->
            LET due == P!Due(e.gens, e.modulo) IN
            Common(e)
            \cup C("plot-x", e.x = [ m \in 1..Len(due) |-> IF e.xval = "gen" THEN e.gens[due[m]] ELSE 10 * due[m] ])
            \cup C("plot-y", Len(e.y) = Len(e.metrics) /\ \A q \in 1..Len(e.metrics) : Len(e.y[q]) = Len(due) /\
                     \A m \in 1..Len(due) : LET p == e.pops[due[m]] IN
                        CASE e.metrics[q] = "best" -> P!IsBest(e.max, p, e.y[q][m])
                          [] e.metrics[q] = "n" -> e.y[q][m] = Len(p)
                          [] OTHER -> e.y[q][m] = p[1])
      [] e.kind = "scatter" ->     \* the scatter shows the population of the last due generation
            LET due == P!Due(e.gens, e.modulo) IN
            Common(e) \cup C("scatter", e.pts = IF due = <<>> THEN <<>> ELSE e.want[due[Len(due)]])
            \cup C("visible", e.visible)
      [] e.kind = "hist" ->        \* the histogram of the last due generation: 10 equal bins from the least to the greatest value
            LET due == P!Due(e.gens, e.modulo)
                upto(k) == SelectSeq(due, LAMBDA m : m <= k)
                Bin(v, lo, hi) == IF v = hi THEN 10 ELSE ((v - lo) * 10) \div (hi - lo) + 1
                OnEdge(vs) == \E j \in 1..Len(vs) : vs[j] \notin {P!Lo(vs), P!Hi(vs)} /\ ((vs[j] - P!Lo(vs)) * 10) % (P!Hi(vs) - P!Lo(vs)) = 0
                Bins(vs) == [ b \in 1..10 |-> Cardinality({ j \in 1..Len(vs) : Bin(vs[j], P!Lo(vs), P!Hi(vs)) = b }) ]
                Shows(k) == LET u == upto(k) IN
                    IF u = <<>> THEN e.bars[k] = <<>>
                    ELSE LET vs == e.vals[u[Len(u)]] IN
                         /\ e.total[k] = Len(vs)
                         /\ (e.scal /\ P!Lo(vs) < P!Hi(vs) /\ ~OnEdge(vs)) => e.bars[k] = Bins(vs)
            IN Common(e) \cup C("histogram", Len(e.bars) = Len(e.pops) /\ \A k \in 1..Len(e.pops) : Shows(k)) \cup C("title", e.titles)
      [] e.kind = "pareto" ->
            LET due(k) == SelectSeq(P!Due(e.gens, e.modulo), LAMBDA m : m <= k) IN
            Common(e) \cup C("front", \A k \in 1..Len(e.gens) : e.pts[k] = IF due(k) = <<>> THEN <<>> ELSE
                                 LET p == e.vecs[due(k)[Len(due(k))]] IN [ j \in 1..Len(p) |-> <<p[j][1], p[j][2]>> ])
            \cup C("visible", e.visible)
      [] e.kind = "contour" ->
            LET xs == { x \in e.xl[1]..(e.xl[2] - 1) : (x - e.xl[1]) % e.gr = 0 }  ys == { y \in e.yl[1]..(e.yl[2] - 1) : (y - e.yl[1]) % e.gr = 0 } IN
            C("contour-points", Elems(e.seen) = { <<x, y>> \o e.pad : x \in xs, y \in ys })
      [] e.kind = "sumcurve" ->
            LET n == (e.hi - e.lo) \div e.gr IN
            C("curve", e.x = [ k \in 1..(n + 1) |-> e.lo + (k - 1) * e.gr ] /\ e.y = [ k \in 1..(n + 1) |-> 10 * (e.lo + (k - 1) * e.gr) + e.hi ])
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
