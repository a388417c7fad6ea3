---------------------------- MODULE TraceDecoders ----------------------------
(* outs: for every genome of the case the decoded integers as bit sequences of their segment's length. *)
EXTENDS LeapCommon, TraceBase
D == INSTANCE Decoders WITH MaxBits <- 1, n <- 1, a <- <<>>
VARIABLE i
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "ints" ->
            C("decoded-value", \A g \in 1..Len(e.genomes) : e.outs[g] = D!Ints(e.code, e.genomes[g], e.lens))
            \cup C("not-repeatable", e.again = e.outs) \cup C("earlier-result-changed", e.late = e.outs) \cup C("genome-changed", e.same)
      [] e.kind = "reals" ->
            C("decoded-value", \A g \in 1..Len(e.genomes) : Len(e.outs[g]) = Len(e.lens) /\ \A k \in 1..Len(e.lens) :
                 (IF e.lens[k] > 16 THEN D!RealOKPrefix(e.code, D!Segment(e.genomes[g], e.lens, k), e.lo[k], e.hi[k], e.outs[g][k], 14) ELSE TRUE) /\
                 (e.lens[k] > 16 \/ D!RealOK(e.code, D!Segment(e.genomes[g], e.lens, k), e.lo[k], e.hi[k], e.outs[g][k])))
            \cup C("not-repeatable", e.again = e.outs) \cup C("earlier-result-changed", e.late = e.outs) \cup C("genome-changed", e.same)
      [] e.kind = "steps" ->      \* off: parts of 10^12 of the range
            C("decoded-value", \A g \in 1..Len(e.genomes) : [ k \in 1..Len(e.outs[g]) |-> e.outs[g][k].at ] = D!Ints(e.code, e.genomes[g], e.lens))
            \cup C("off-its-step", \A g \in 1..Len(e.genomes) : \A k \in 1..Len(e.outs[g]) : Abs(e.outs[g][k].off) <= 100)
            \cup C("not-repeatable", e.again = e.outs) \cup C("earlier-result-changed", e.late = e.outs) \cup C("genome-changed", e.same)
      [] e.kind = "segmented" ->     \* a sequence of segment genomes, all decoded with the same inner layout
            C("decoded-value", e.outs = [ s \in 1..Len(e.genomes) |-> D!Ints(e.code, e.genomes[s], e.lens) ]) \cup C("genome-changed", e.same)
      [] e.kind = "identity" -> C("identity", e.identical)
      [] e.kind = "misuse" -> C("misuse-accepted", e.err # "")
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
