----------------------------- MODULE TraceGuards -----------------------------
(* refused: the call raised an ordinary exception; touched: something of the      *)
(* caller (genome, population, fitness, iterator, list) was consumed or changed    *)
(* by a refused call; after: a permitted call made afterwards was accepted.        *)
EXTENDS LeapCommon, TraceBase
G == INSTANCE Guards WITH Steps <- 0, Used <- {}, done <- 0, world <- 0, shadow <- 0
VARIABLE i
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    C("not-refused", G!Refused(e.kind, e.a) => e.refused)
    \cup C("refused-but-permitted", ~G!Refused(e.kind, e.a) => ~e.refused)
    \cup C("refused-call-had-an-effect", e.refused => ~e.touched)
    \cup C("no-result", ~e.refused => e.works)
    \cup C("refusal-spoils-later-calls", e.after)
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
