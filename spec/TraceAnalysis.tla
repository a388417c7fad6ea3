---------------------------- MODULE TraceAnalysis ----------------------------
EXTENDS LeapCommon, TraceBase
A == INSTANCE Analysis WITH Exps <- {}, Jobs <- {}, Times <- {}, Vals <- {}, MaxRows <- 0, rows <- <<>>
VARIABLE i
Sq(xs) == SumSeq([ k \in 1..Len(xs) |-> xs[k] * xs[k] ])
CurvesOK(e, out, m) ==     \* out: sequence of [t, e, mean, std]
    /\ { <<out[k].t, out[k].e>> : k \in 1..Len(out) } = A!CurveKeys(e.rows) /\ Len(out) = Cardinality(A!CurveKeys(e.rows))
    /\ \A k \in 1..Len(out) : LET xs == A!Ys(A!AtKey(e.rows, out[k].t, out[k].e), m) IN A!StatOK(Len(xs), SumSeq(xs), Sq(xs), out[k].mean, out[k].std)
ScalarsOK(e, out, m, how) ==     \* out: sequence of [j, e, v]
    /\ { <<out[k].j, out[k].e>> : k \in 1..Len(out) } = A!RunKeys(e.rows) /\ Len(out) = Cardinality(A!RunKeys(e.rows))
    /\ \A k \in 1..Len(out) : out[k].v = A!Measure(A!Run(e.rows, out[k].j, out[k].e), m, how)
AvgScalarsOK(e, out, m, how) ==
    LET E == { e.rows[k].e : k \in 1..Len(e.rows) } IN
    /\ { out[k].e : k \in 1..Len(out) } = E /\ Len(out) = Cardinality(E)
    /\ \A k \in 1..Len(out) : A!StatOK(Cardinality(A!ExpRuns(e.rows, out[k].e)), A!ScalarSum(e.rows, out[k].e, m, how), A!ScalarSq(e.rows, out[k].e, m, how), out[k].mean, out[k].std)
\* twice the median of a sequence of integers
Med2(xs) == LET n == Len(xs)  ys == SortSeq(xs, LAMBDA a, b : a < b) IN ys[(n + 1) \div 2] + ys[(n + 2) \div 2]
\* the rows the figure is about; the points of one run in time order; the AUC of every run of an experiment
Kept(e) == SelectSeq(e.rows, LAMBDA r : r.t % e.modulo = 0)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
RunLine(rs, key, m) == LET r == SortSeq(SelectSeq(rs, LAMBDA q : q.j = key[1] /\ q.e = key[2]), LAMBDA a, b : a.t < b.t) IN [ k \in 1..Len(r) |-> <<r[k].t, A!Val(r[k], m)>> ]
Aucs(rs, x, m) == LET J == SetToSeq({ k \in A!RunKeys(rs) : k[2] = x }) IN [ k \in 1..Len(J) |-> A!Measure(A!Run(rs, J[k][1], J[k][2]), m, "auc") ]
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "summaries" ->
            C("mean-curves", CurvesOK(e, e.avgy, "y") /\ CurvesOK(e, e.avgz, "z"))
            \cup C("per-run-scalars", ScalarsOK(e, e.auc, e.m, "auc") /\ ScalarsOK(e, e.maxv, e.m, "max"))
            \cup C("per-experiment-scalars", AvgScalarsOK(e, e.avgauc, e.m, "auc") /\ AvgScalarsOK(e, e.avgmax, e.m, "max"))
            \cup C("data-changed", e.same)
      [] e.kind = "columns" -> C("columns-accepted", e.refused)
      [] e.kind = "cat" -> C("combined-rows", e.got = e.want) \cup C("combined-columns", e.cols = e.wantcols)
      [] e.kind = "cli" ->
            C("file-mean-curves", CurvesOK(e, e.avgy, "y")) \cup C("file-per-run", ScalarsOK(e, e.auc, "y", "auc"))
            \cup C("file-per-experiment", AvgScalarsOK(e, e.avgauc, "y", "auc")) \cup C("file-combined", SameBag(e.all, e.rows))
      [] e.kind = "plots" ->
            \* one line per run, in the colour of its experiment; one mean line per experiment
            C("run-lines", SameBag([ k \in 1..Len(e.lines) |-> e.lines[k].pts ], e.want))
            \cup C("line-colours", \A k, l \in 1..Len(e.lines) : (e.lines[k].col = e.lines[l].col) <=> (e.exps[k] = e.exps[l]))
            \cup C("mean-lines", Len(e.means) = Cardinality({ e.rows[k].e : k \in 1..Len(e.rows) }) /\ CurvesOK(e, e.meanpts, "y"))
            \cup C("error-bars", e.err = e.bars)
      [] e.kind = "plotcli" ->
            LET rs == TLCEval(Kept(e))  K == SetToSeq(A!RunKeys(rs))  X == Elems(e.exps)  ck == A!CurveKeys(rs) IN
            C("figure-parts", e.shown = Len(e.part))
            \cup C("run-lines", 0 \in Elems(e.part) => SameBag(e.lines, [ k \in 1..Len(K) |-> RunLine(rs, K[k], e.m) ]))
            \cup C("mean-lines", 1 \in Elems(e.part) => (/\ e.nmeans = Cardinality(X) /\ Len(e.means) = Cardinality(ck) /\ { <<e.means[k].t, e.means[k].e>> : k \in 1..Len(e.means) } = ck
                                   /\ \A k \in 1..Len(e.means) : LET ys == A!Ys(A!AtKey(rs, e.means[k].t, e.means[k].e), e.m) IN Abs(e.means[k].mean * Len(ys) - 1000 * SumSeq(ys)) <= Len(ys)))
            \cup C("boxes", 2 \in Elems(e.part) => (Len(e.med2) = Len(e.exps) /\ \A k \in 1..Len(e.med2) : e.med2[k] = Med2(Aucs(rs, e.exps[k], e.m))))
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
