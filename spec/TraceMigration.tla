--------------------------- MODULE TraceMigration ---------------------------
(* A case: topology nb (neighbours per island), gap, and calls in order:           *)
(* {g, isl, before, evs, after, same} with events                                   *)
(*   stamp {tag, src-copy checks, in, out}; repl {idx}; metric {gen, imm, con, ok}; *)
(*   emig {tag, idx, pop}.   Individuals are ids into val (fitness).                *)
EXTENDS LeapCommon, TraceBase
M == INSTANCE Migration WITH N <- 0, Edges <- {}, Gap <- 1, MaxGen <- 0, Vals <- {}, Size <- 0, pops <- <<>>, mail <- {}, gen <- 0, cur <- 0, sent <- 0, got <- 0
VARIABLE i
\* st: [pop, mail (set of [tag, src, g]), ph, imm, idx, bad]
\* ph: "in" (expect stamp or emission), "stamped" (expect repl), "chosen" (expect metric if there is one)
\* the population as next seen (by a selector, or on return)
NextPop(c, k) == LET later == { q \in (k + 1)..Len(c.evs) : c.evs[q].ev \in {"repl", "emig"} } IN
                 IF later = {} THEN c.after ELSE c.evs[SetMin(later)].pop
Settle(e, s, np) == \* competition result once the contestant is known; between two failed individuals either may win
    LET con == s.pop[s.idx + 1]
        win == IF e.val[s.imm] = NaN /\ e.val[con] = NaN THEN s.idx + 1 <= Len(np) /\ np[s.idx + 1] = s.imm
               ELSE M!Wins(e.max, e.val[s.imm], e.val[con])
    IN [s EXCEPT !.pop = IF win THEN [s.pop EXCEPT ![s.idx + 1] = s.imm] ELSE s.pop, !.con = con, !.win = win]
RECURSIVE Evs(_, _, _, _)
Evs(e, c, s, k) ==
    IF k > Len(c.evs) THEN s
    ELSE LET v == c.evs[k] IN
      CASE v.ev = "stamp" /\ s.ph = "in" ->
             LET m == { x \in s.mail : x.tag = v.tag }
                 b == C("immigrant-never-sent-or-delivered-twice", m # {})
                      \cup C("not-a-neighbour", \A x \in m : c.isl \in Elems(e.nb[x.src + 1]))
                      \cup C("arrives-at-wrong-time", \A x \in m : M!Arrives(x.src, x.g, c.isl, c.g))
                      \cup C("stamped-for-wrong-island", v.dst = c.isl)
                      \cup C("emigrant-not-a-faithful-copy", v.copy)
                      \cup C("immigration-after-emission", ~s.emitted)
             IN Evs(e, c, [s EXCEPT !.mail = { x \in s.mail : x.tag # v.tag }, !.ph = "stamped", !.imm = v.out, !.bad = s.bad \cup b], k + 1)
        [] v.ev = "repl" /\ s.ph = "stamped" ->
             IF v.idx \in 0..(Len(s.pop) - 1) /\ v.pop = s.pop
             THEN Evs(e, c, [Settle(e, [s EXCEPT !.idx = v.idx], NextPop(c, k)) EXCEPT !.ph = IF e.metric THEN "chosen" ELSE "in"], k + 1)
             ELSE [s EXCEPT !.bad = s.bad \cup {"replacement-selector-saw-other-population"}]
        [] v.ev = "metric" /\ s.ph = "chosen" ->
             LET b == C("metric-untruthful", v.gen = c.g /\ v.imm = s.imm /\ v.con = s.con /\ v.ok = s.win) IN
             Evs(e, c, [s EXCEPT !.ph = "in", !.bad = s.bad \cup b], k + 1)
        [] v.ev = "emig" /\ s.ph = "in" ->
             LET b == C("emission-off-schedule", M!Emits(c.g, e.gap, {1})) \cup C("more-than-one-emigrant", ~s.emitted)
                      \cup C("emigrant-selector-saw-other-population", v.pop = s.pop) IN
             Evs(e, c, [s EXCEPT !.mail = IF e.nb[c.isl + 1] = <<>> THEN s.mail ELSE s.mail \cup {[tag |-> v.tag, src |-> c.isl, g |-> c.g]}, !.emitted = e.nb[c.isl + 1] # <<>>, !.bad = s.bad \cup b], k + 1)
        [] OTHER -> [s EXCEPT !.bad = s.bad \cup {"unexpected-event:" \o v.ev \o "-in-" \o s.ph}]
Call(e, c, mail) ==
    LET s0 == [pop |-> c.before, mail |-> mail, ph |-> "in", imm |-> 0, idx |-> 0, con |-> 0, win |-> FALSE, emitted |-> FALSE, bad |-> {}]
        s == Evs(e, c, s0, 1)
        \* anything still in the mail whose only possible arrival times have passed
        overdue == { x \in s.mail : \A d \in Elems(e.nb[x.src + 1]) :
                        \E q \in 1..Len(e.calls) : e.calls[q].seq <= c.seq /\ e.calls[q].isl = d /\ M!Arrives(x.src, x.g, d, e.calls[q].g)
                                                    /\ ~(e.calls[q].isl = x.src /\ e.calls[q].g = x.g) }
    IN [mail |-> s.mail,
        bad |-> s.bad \cup C("missed-emission", s.emitted = M!Emits(c.g, e.gap, Elems(e.nb[c.isl + 1])) \/ s.bad # {})
                \cup C("size-changed", Len(c.after) = Len(c.before))
                \cup C("wrong-population-after", c.after = s.pop \/ s.bad # {})
                \cup C("immigrant-lost", overdue = {})
                \cup C("competition-unfinished", s.ph = "in" \/ s.bad # {})]
RECURSIVE Calls(_, _, _)
Calls(e, k, mail) ==
    IF k > Len(e.calls) THEN {}
    ELSE LET r == Call(e, e.calls[k], mail) IN IF r.bad # {} THEN r.bad ELSE Calls(e, k + 1, r.mail)
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "history" -> Calls(e, 1, {}) \cup C("individual-altered", e.unaltered)
      [] e.kind = "routes" ->    \* counts[src][k]: deliveries from src to its k-th neighbour
            UNION { UNION { C("neighbour-never-chosen", e.counts[x][k] > 0) \cup C("neighbours-not-equally-likely", FreqOK(e.counts[x][k], SumSeq(e.counts[x]), 1, Len(e.counts[x]), 120)) : k \in 1..Len(e.counts[x]) } : x \in 1..Len(e.counts) }
      [] e.kind = "csv" -> C("metric-rows", e.rows = e.want) \cup C("metric-header", e.header = e.wantheader)
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
