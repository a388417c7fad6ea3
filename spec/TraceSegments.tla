---------------------------- MODULE TraceSegments ----------------------------
EXTENDS LeapCommon, TraceBase
S == INSTANCE Segments WITH MaxLen <- 0, Toks <- {}, s <- <<>>, born <- 0
VARIABLE i
\* a step: op, prob (0, 1 or 2 = in between), before, after (segment contents), made (segments returned by the initializer in this step)
Changed(v) ==
    CASE v.op = "add" -> IF v.made = <<>> THEN {} ELSE S!AddResults(v.before, v.made[1], FALSE)
      [] v.op = "addend" -> IF v.made = <<>> THEN {} ELSE S!AddResults(v.before, v.made[1], TRUE)
      [] v.op = "copy" -> S!CopyResults(v.before, FALSE)
      [] v.op = "copyend" -> S!CopyResults(v.before, TRUE)
      [] v.op = "remove" -> S!RemoveResults(v.before)
Step(v) ==
    C("segments-share-storage", ~v.aliased) \cup C("other-individual", v.same)
    \cup IF v.op \in {"add", "addend", "copy", "copyend", "remove"} THEN
            C("wrong-segments", CASE v.prob = 1 -> v.after \in Changed(v)
                                  [] v.prob = 0 -> v.after = v.before
                                  [] OTHER -> v.after \in Changed(v) \cup {v.before})
            \cup C("initializer-calls", v.op \notin {"add", "addend"} \/ Len(v.made) = Len(v.after) - Len(v.before))
            \cup C("fitness-kept-after-change", v.after = v.before \/ v.fit = None)
         ELSE \* apply / each: each segment handed to its mutator exactly once, results in order
            C("segment-count-or-order", v.after = v.outs) \cup C("mutator-applied-once-per-segment", v.ins = v.before)
            \cup C("which-mutator", v.who = [ k \in 1..Len(v.before) |-> IF v.op = "each" THEN k ELSE 1 ])
            \cup C("share-of-expected-mutations", v.op = "each" \/ \A k \in 1..Len(v.share) : v.share[k] = v.expected)
            \cup C("fitness-kept-after-change", v.fit = None)
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "ops" -> UNION { Step(e.steps[k]) : k \in 1..Len(e.steps) }
      [] e.kind = "rate" ->       \* hits of n applied; positions: observed insertion/removal places with counts
            C("probability", FreqOK(e.hits, e.n, e.pn, e.pd, 70))
            \cup C("place-unreachable", \A p \in 1..Len(e.places) : e.places[p] > 0)
            \cup C("place-not-uniform", \A p \in 1..Len(e.places) : FreqOK(e.places[p], e.hits, 1, Len(e.places), 120))
      [] e.kind = "copyplace" ->      \* source and place are independent and uniform
            LET g == [ k \in 1..e.len |-> k ]
                ways(o) == Cardinality({ sp \in (1..e.len) \X (0..e.len) : S!InsertAt(g, sp[2], g[sp[1]]) = o })
                cnt(o) == SumSeq([ k \in 1..Len(e.outs) |-> IF e.outs[k][1] = o THEN e.outs[k][2] ELSE 0 ])
            IN  C("copy-place-not-uniform", \A o \in S!CopyResults(g, FALSE) : cnt(o) > 0 /\ FreqOKs(cnt(o), e.n, ways(o), e.len * (e.len + 1), 60))
      [] e.kind = "create" -> C("number-of-segments", Len(e.segs) = e.want) \cup C("segments-share-storage", ~e.aliased) \cup C("own-initializer-call", e.segs = e.made)
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
