---------------------------- MODULE TracePhenome ----------------------------
(* steps[j]: op, k the member acted on, v the value passed or returned, calls the  *)
(* genomes decoded during the step, seen the phenomes the problem was given, and    *)
(* fam: genome, fitness and decoded-or-not of every member afterwards.              *)
EXTENDS LeapCommon, TraceBase
P == INSTANCE Phenome WITH Len_ <- 0, Members <- 0, fam <- <<>>, last <- <<>>, n <- 0
VARIABLE i
Apply(fam, s) ==
    LET m == fam[s.k] IN
    CASE s.op \in {"assign", "inplace"} -> [fam EXCEPT ![s.k] = P!Mutated(m, s.v)]
      [] s.op = "decode" -> [fam EXCEPT ![s.k] = P!Decoded(m)]
      [] s.op = "eval" -> [fam EXCEPT ![s.k] = P!Evaluated(m)]
      [] s.op = "set" -> [fam EXCEPT ![s.k] = P!ByHand(m, s.v)]
      [] s.op = "read" -> [fam EXCEPT ![s.k] = P!Read(m, s.v)]
      [] s.op = "clone" -> Append(fam, P!New(m.g))
      [] OTHER -> fam
StepVerdict(fam, s) ==
    LET m == fam[s.k]
        nf == Apply(fam, s)
    IN  C("genomes", Len(s.fam) = Len(nf) /\ \A q \in 1..Len(nf) : s.fam[q].g = nf[q].g)
        \cup C("fitnesses", Len(s.fam) = Len(nf) /\ \A q \in 1..Len(nf) : s.fam[q].fit = nf[q].fit)
        \cup (IF s.op = "read" THEN C("phenome-read", s.v \in P!Readable(m)) ELSE {})
        \cup (IF s.op = "decode" THEN C("decode-result", s.v = P!D(m.g)) \cup C("decodes-its-genome", s.calls # <<>> /\ Elems(s.calls) = {m.g}) ELSE {})
        \cup (IF s.op = "eval" THEN C("evaluation-result", s.v = P!Fit(P!D(m.g))) \cup C("problem-sees-the-decoded-genome", s.seen = <<P!D(m.g)>>) \cup C("decodes-its-genome", s.calls # <<>> /\ Elems(s.calls) = {m.g})
              ELSE C("evaluated-without-being-asked", s.seen = <<>>))
        \cup (IF s.op \in {"read", "set", "assign", "inplace", "clone", "other"} THEN C("decodes-only-its-own-genome", Elems(s.calls) \subseteq {m.g}) ELSE {})
RECURSIVE Run(_, _, _)
Run(fam, ss, j) == IF j > Len(ss) THEN {} ELSE StepVerdict(fam, ss[j]) \cup Run(Apply(fam, ss[j]), ss, j + 1)
Verdict(e) == IF e.exc # "" THEN {"raised"} ELSE Run(<<P!New(1)>>, e.steps, 1)
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
