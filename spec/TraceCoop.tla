------------------------------ MODULE TraceCoop ------------------------------
(* inds: <<[tok, combos, vals, fit]...>>; picks[s]: what the selector of s yielded;  *)
(* rows: <<[gen, sub, comb, cs, toks, fit]...>> of the log.                          *)
EXTENDS LeapCommon, TraceBase
P == INSTANCE Coop WITH NSubs <- 1, SubSize <- 1, Trials <- 1, cur <- 1, done <- <<>>, vals <- <<>>, fit <- 0, touched <- {}
VARIABLE i
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
AllCombos(e) == Cat([ k \in 1..Len(e.inds) |-> e.inds[k].combos ])
AllVals(e) == Cat([ k \in 1..Len(e.inds) |-> e.inds[k].vals ])
RowsOK(e) ==
    LET m == Len(e.subs)  cs == e.combolog IN
    /\ Len(e.rows) = Len(cs) * (m + 1)
    /\ \A t \in 1..Len(cs) : \A s \in 1..(m + 1) :
         LET r == e.rows[(t - 1) * (m + 1) + s] IN
         /\ r.gen = e.gen /\ r.sub = e.cur - 1
         /\ IF s = m + 1 THEN r.comb /\ r.toks = cs[t].c /\ r.fit = cs[t].v
            ELSE ~r.comb /\ r.cs = s - 1 /\ r.toks = <<cs[t].c[s]>> /\ (s = e.cur \/ r.fit = e.fits[cs[t].c[s]])
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    C("combination-malformed", \A k \in 1..Len(e.inds) : \A t \in 1..Len(e.inds[k].combos) : P!IsCombination(e.subs, e.cur, e.inds[k].tok, e.inds[k].combos[t]))
    \cup C("number-of-trials", \A k \in 1..Len(e.inds) : Len(e.inds[k].combos) = e.trials)
    \cup C("stray-evaluations", Len(e.combolog) = Len(e.inds) * e.trials)
    \cup C("fitness-is-not-the-mean", \A k \in 1..Len(e.inds) : P!CoopFitnessOK(e.inds[k].vals, e.trials, e.inds[k].fit))
    \cup C("not-the-selectors-picks", \A s \in 1..Len(e.subs) : s = e.cur \/
            LET used == [ t \in 1..Len(e.combolog) |-> IF Len(e.combolog[t].c) >= s THEN e.combolog[t].c[s] ELSE 0 ] IN SameBag(used, e.picks[s]))
    \cup C("order-of-individuals", e.outorder = [ k \in 1..Len(e.inds) |-> e.inds[k].tok ])
    \cup C("collaborators-touched", e.untouched)
    \cup C("log-rows", ~e.log \/ RowsOK(e))
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
