--------------------------- MODULE TraceSelection ---------------------------
EXTENDS LeapCommon, TraceBase
S == INSTANCE Selection WITH Vals <- {}, MaxPop <- 0, MaxK <- 0, MaxN <- 0, U <- 2, mx <- TRUE, pop <- <<>>, k <- 0, drawn <- <<>>, sh <- <<1>>, n <- 1, u <- 1
VARIABLE i
\* out: positions yielded (0 = not a member); idx: contents of the index list after each yield
Members(e) == C("not-a-member", \A p \in 1..Len(e.out) : e.out[p] \in 1..Len(e.pop))
              \cup C("population-changed", e.popafter = [ s \in 1..Len(e.pop) |-> s ])
Index(e) == IF e.useidx THEN C("index-list", Len(e.idx) = Len(e.out) /\ \A p \in 1..Len(e.out) : e.idx[p] = <<e.out[p] - 1>>) ELSE {}
IsPerm(n, t) == Len(t) = n /\ Elems(t) = 1..n
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "tournament" ->   \* hits[s]: how often position s won in n pulls
            LET mx == IF e.worst THEN ~e.max ELSE e.max
                W(v) == SumSeq([ s \in 1..Len(e.pop) |-> IF e.pop[s] = v THEN e.hits[s] ELSE 0 ])
                \* selecting the worst with NaN present: NaN stays the worst of all, so it wins
                num(v) == IF e.worst
                          THEN Pow(Cardinality({ s \in 1..Len(e.pop) : ~Worse(e.max, e.pop[s], v) }), e.k) - Pow(Cardinality({ s \in 1..Len(e.pop) : Better(e.max, e.pop[s], v) }), e.k)
                          ELSE S!WinNum(e.max, e.pop, e.k, v)
            IN C("not-a-member", e.strangers = 0) \cup C("population-changed", e.popafter = [ s \in 1..Len(e.pop) |-> s ])
               \cup C("index-list", e.badidx = 0)
               \cup C("winner-distribution", \A v \in Elems(e.pop) : FreqOKs(W(v), e.n, num(v), Pow(Len(e.pop), e.k), 70))
               \cup C("equals-not-equally-likely", Pow(Len(e.pop), e.k) > 81 \/ \A s \in 1..Len(e.pop) :
                         LET n == Cardinality({ q \in 1..Len(e.pop) : e.pop[q] = e.pop[s] }) IN FreqOKs(n * e.hits[s], e.n, num(e.pop[s]), Pow(Len(e.pop), e.k), 70 * n))
               \cup C("member-never-wins", Pow(Len(e.pop), e.k) > 81 \/ \A s \in 1..Len(e.pop) : e.hits[s] > 0)
      [] e.kind = "surewin" ->
            LET mx == IF e.worst THEN ~e.max ELSE e.max IN
            C("not-a-member", e.strangers = 0) \cup C("population-changed", e.popafter = [ s \in 1..Len(e.pop) |-> s ])
            \cup C("index-list", e.badidx = 0)
            \cup C("winner-is-not-the-extreme", \A s \in 1..Len(e.pop) : e.hits[s] = 0 \/ \A t \in 1..Len(e.pop) : ~Better(mx, e.pop[t], e.pop[s]))
      [] e.kind = "upset" ->      \* n contestants of n: the extreme member is drawn with probability 1 - (1 - 1/n)^n, between 0.63 and 0.67
            LET mx == IF e.worst THEN ~e.max ELSE e.max
                top == CHOOSE s \in 1..Len(e.pop) : \A t \in 1..Len(e.pop) : ~Better(mx, e.pop[t], e.pop[s]) IN
            C("not-a-member", e.strangers = 0) \cup C("index-list", e.badidx = 0)
            \cup C("winner-distribution", FreqOKs(e.hits[top], e.n, 65, 100, 70))
      [] e.kind = "random" ->
            C("not-a-member", e.strangers = 0) \cup C("population-changed", e.popafter = [ s \in 1..Len(e.pop) |-> s ])
            \cup C("index-list", e.badidx = 0)
            \cup C("not-uniform", \A s \in 1..Len(e.pop) : FreqOKs(e.hits[s], e.n, 1, Len(e.pop), 70) /\ e.hits[s] > 0)
      [] e.kind = "naive-cyclic" -> Members(e) \cup Index(e) \cup C("tours", S!IsTours(Len(e.pop), e.out, TRUE))
      [] e.kind = "cyclic" -> Members(e) \cup C("tours", S!IsTours(Len(e.pop), e.out, FALSE))
      [] e.kind = "cyclic-orders" ->   \* orders: distinct orders seen for the second / third tour
            C("some-order-never-used", Cardinality(Elems(e.orders)) = e.fact) \cup C("tour-not-reshuffled", e.same > 0 /\ e.other > 0)
             \cup C("tours", \A o \in Elems(e.orders) : IsPerm(Len(e.pop), o))
      [] e.kind = "proportional" ->
            LET sh == S!Shares(e.vals, e.offset, e.popmin, e.expo)  T == SumSeq(sh) IN
            C("not-a-member", e.strangers = 0) \cup C("population-changed", e.popafter = [ s \in 1..Len(e.vals) |-> s ])
            \cup C("zero-share-chosen", \A s \in 1..Len(sh) : sh[s] = 0 => e.hits[s] = 0)
            \cup C("positive-share-never-chosen", \A s \in 1..Len(sh) : sh[s] * 20 >= T => e.hits[s] > 0)
            \cup C("share", \A s \in 1..Len(sh) : FreqOKs(e.hits[s], e.n, sh[s], T, 70))
      [] e.kind = "sus" ->
            LET sh == S!Shares(e.vals, e.offset, e.popmin, e.expo) IN
            C("population-changed", e.popafter = [ s \in 1..Len(e.vals) |-> s ])
            \cup C("pass", \A p \in 1..Len(e.passes) : S!IsSusPass(sh, e.n, e.passes[p]))
            \cup C("repeats-without-shuffle", e.shuffle \/ \A p \in 1..Len(e.passes) : e.passes[p] = e.passes[1])
      [] e.kind = "sus-mean" ->     \* totals over m shuffled passes (or m independent streams)
            LET sh == S!Shares(e.vals, e.offset, e.popmin, e.expo)  T == SumSeq(sh) IN
            C("expected-copies", \A s \in 1..Len(sh) : FreqOKs(e.hits[s] - e.m * ((e.n * sh[s]) \div T), e.m, (e.n * sh[s]) % T, T, 70))
            \cup C("zero-share-chosen", \A s \in 1..Len(sh) : sh[s] = 0 => e.hits[s] = 0)
      [] e.kind = "rejected" -> C("accepted-bad-arguments", e.error # "")
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
