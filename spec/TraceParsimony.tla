--------------------------- MODULE TraceParsimony ---------------------------
(* Individuals are numbered by their place in pop; the first no are offspring, the rest parents. *)
EXTENDS LeapCommon, TraceBase
P == INSTANCE Parsimony WITH Fits <- {}, Lens <- {}, Pens <- {}, mx <- TRUE, pen2 <- 0, a <- 0, b <- 0, c <- 0
S == INSTANCE Survival WITH Vals <- {}, NO <- 0, NP <- 0, mx <- TRUE, val <- <<>>, pop <- <<>>, next <- 0
VARIABLE i
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    LET rk == TLCEval(P!Rank(e.key, e.max, e.pen2, e.pop))  n == Len(e.pop)
        Off == 1..e.no  Par == (e.no + 1)..n IN
    C("individuals-changed", e.same) \cup
    (CASE e.kind = "order" ->      \* lt[a][b]: key(a) < key(b)
            C("order", \A x, y \in 1..n : e.lt[x][y] <=> P!Less(e.key, e.max, e.pen2, e.pop[x], e.pop[y]))
            \cup C("ties", \A x, y \in 1..n : e.eq[x][y] <=> rk[x] = rk[y])
      [] e.kind = "truncation" -> C("truncation", S!IsTruncation(TRUE, rk, Off \cup (IF e.withpar THEN Par ELSE {}), e.size, e.kept))
      [] e.kind = "elitist" -> C("elitist", S!IsElitistFast(TRUE, rk, Off, Par, e.k, e.kept))
      [] e.kind = "insertion" -> C("insertion", e.kept \in S!Insertions(TRUE, rk, { [ k \in 1..Cardinality(Par) |-> e.no + k ] }, [ k \in 1..e.no |-> k ]))
      [] e.kind = "tournament" -> C("tournament", \A k \in 1..Len(e.kept) : e.kept[k] \in 1..n /\ \A y \in 1..n : IF e.worst THEN rk[e.kept[k]] <= rk[y] ELSE rk[y] <= rk[e.kept[k]])
      [] OTHER -> {"unknown-kind"})
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
