------------------------------ MODULE TraceBase ------------------------------
(* Reading recorded behaviour of the implementation and reporting verdicts.   *)
(* Every line of the trace file is one recorded case; a verdict is the set of  *)
(* names of violated clauses.  Verdicts are total: a bad case is reported and  *)
(* validation goes on with the next one.                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

Report(e, bad) ==
    IF bad = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson([case |-> e.case, kind |-> e.kind, bad |-> bad]))

Done(i) == IF i = Len(Trace) THEN PrintT("DONE " \o ToString(i)) ELSE TRUE
==============================================================================
