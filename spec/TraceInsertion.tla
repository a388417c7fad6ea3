--------------------------- MODULE TraceInsertion ---------------------------
(* "hist": val, viable, pops: population (ids, in position order) after each arrival k.  *)
(* "freq": how often each position of a full population was challenged.                  *)
EXTENDS LeapCommon, TraceBase
N == INSTANCE Insertion WITH Vals <- {}, Cap <- 0, MaxArrivals <- 0, mx <- TRUE, rule <- "", val <- <<>>, pop <- <<>>
VARIABLE i
\* members of a bounded population are compared as a set: positions carry no meaning
Step(e, k) ==
    LET old == IF k = 1 THEN e.pop0 ELSE e.pops[k - 1]  new == e.pops[k]  x == e.base + k
        outs == N!Outcomes(e.rule, e.max, e.val, e.viable, old, x, e.cap) IN
    C("size", Len(new) = Min2(e.cap, Len(old) + 1) \/ Len(old) > e.cap)
    \cup C("duplicated-or-invented", IsInj(new) /\ Elems(new) \subseteq (Elems(old) \cup {x}))
    \cup C("not-an-outcome-of-the-rule", \E o \in outs : Elems(o) = Elems(new) /\ Len(o) = Len(new))
    \cup C("best-viable-worsened", \A a \in Elems(old) : e.val[a] = NaN \/ \E b \in Elems(new) : ~Worse(e.max, e.val[b], e.val[a]))
    \cup C("viable-displaced-by-failed", e.viable[x] \/ \A a \in Elems(old) : e.viable[a] => a \in Elems(new))
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "hist" -> UNION { Step(e, k) : k \in 1..Len(e.pops) }
                            \cup C("arrivals-untouched", e.same)
      [] e.kind = "freq" -> C("challenged-uniformly", \A k \in 1..Len(e.counts) : FreqOK(e.counts[k], e.n, 1, Len(e.counts), e.tol))
      [] e.kind = "freqrare" -> C("challenged-uniformly", \A k \in 1..Len(e.counts) : RelOK(e.counts[k], e.n, 1, Len(e.counts)))
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
