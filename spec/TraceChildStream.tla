-------------------------- MODULE TraceChildStream --------------------------
(* A case: evs = sequence of {ev: "use"} and {ev: "pull", out, taken}; inds =     *)
(* state of every individual before (was) it entered and at the end (now).        *)
EXTENDS LeapCommon, TraceBase
K == INSTANCE ChildStream WITH MaxUses <- 0, MaxPulls <- 0, persist <- TRUE, st <- 0, uses <- 0, pulls <- 0, delivered <- <<>>
VARIABLE i
N(r) == [r EXCEPT !.par = { r.par[k] : k \in 1..Len(r.par) }]
RECURSIVE Walk(_, _, _, _)
Walk(e, st, k, bad) ==
    IF k > Len(e.evs) THEN [bad |-> bad, st |-> st]
    ELSE LET v == e.evs[k] IN
         IF v.ev = "use" THEN Walk(e, K!StartUse(st, e.persist), k + 1, bad)
         ELSE LET r == K!Deliver(st)
                  b == C("wrong-child-delivered", v.out = r.out) \cup C("takes-wrong-number", v.taken = r.st.taken)
              IN IF b # {} THEN [bad |-> bad \cup b, st |-> r.st] ELSE Walk(e, r.st, k + 1, bad)
Pairs(e, taken) ==
    UNION { LET p == N(e.was[2 * k - 1])  q == N(e.was[2 * k])  p2 == N(e.now[2 * k - 1])  q2 == N(e.now[2 * k])
                rec == K!Recombined(p, q, p2, q2)   pas == K!PassedThrough(p, q, p2, q2)
            IN C("neither-recombined-nor-passed-through", rec \/ pas)
               \cup C("passed-through-with-probability-one", e.pn < e.pd \/ rec)
               \cup C("recombined-with-probability-zero", e.pn > 0 \/ pas)
          : k \in 1..(taken \div 2) }
\* Uses consumed alternately.  Without persistence every use delivers the pairs it took itself.  With persistence which use
\* delivers a waiting child is left open, but nobody gets anything twice or something that is no child, and nothing is lost.
RECURSIVE WalkI(_, _, _)
WalkI(e, owe, k) ==
    IF k > Len(e.evs) THEN {}
    ELSE LET v == e.evs[k]  before == IF k = 1 THEN 0 ELSE e.evs[k - 1].taken
             want == IF owe[v.u] # 0 THEN owe[v.u] ELSE before + 1
             b == C("wrong-child-delivered", v.out = want) \cup C("takes-wrong-number", v.taken = IF owe[v.u] # 0 THEN before ELSE before + 2)
         IN IF b # {} THEN b ELSE WalkI(e, [owe EXCEPT ![v.u] = IF @ # 0 THEN 0 ELSE before + 2], k + 1)
Inter(e) ==
    LET outs == [ k \in 1..Len(e.evs) |-> e.evs[k].out ]  n == e.evs[Len(e.evs)].taken  IN
    IF e.persist THEN C("delivered-twice", IsInj(outs)) \cup C("not-a-child", \A k \in 1..Len(outs) : outs[k] \in 1..e.evs[k].taken)
                      \cup C("child-lost", \A x \in 1..n : x \in Elems(outs))
    ELSE WalkI(e, [ u \in 1..e.uses |-> 0 ], 1)
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "uses" ->
            LET w == Walk(e, K!Start, 1, {}) IN
            w.bad \cup (IF w.bad = {} /\ Len(e.was) >= w.st.taken THEN Pairs(e, w.st.taken) ELSE {})
            \cup C("source-overread", e.untouched)
      [] e.kind = "inter" -> LET b == Inter(e) IN b \cup (IF b = {} THEN Pairs(e, e.evs[Len(e.evs)].taken) ELSE {})
      [] e.kind = "rare" -> C("recombination-probability", IF 2 * e.pn <= e.pd THEN RelOK(e.hits, e.n, e.pn, e.pd) ELSE RelOK(e.n - e.hits, e.n, e.pd - e.pn, e.pd))
      [] e.kind = "rate" -> C("recombination-probability", FreqOK(e.hits, e.n, e.pn, e.pd, 70))
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
