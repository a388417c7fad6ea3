------------------------------ MODULE TraceBench ------------------------------
EXTENDS LeapCommon, TraceBase
F == INSTANCE Benchmarks WITH Bound <- 0, Dim <- 1, pt <- <<0>>
VARIABLE i
Near(a, b, t) == Abs(a - b) <= t
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "scalar" ->
            C("value", \A k \in 1..Len(e.vals) : Near(e.vals[k], F!Want(e.f, e.par, e.X), F!Tol(e.f)))
            \cup C("point-changed", e.same) \cup C("direction", e.dirok /\ (e.given \/ e.isdir = F!Maximises(e.f))) \cup C("bounds", e.bounds = F!Bounds(e.f))
      [] e.kind = "shekel" -> C("value", \A k \in 1..Len(e.vals) : F!ShekelOK(e.k, e.own, e.dx, e.dy, e.vals[k])) \cup C("direction", ~e.isdir) \cup C("bounds", e.bounds = F!Bounds("shekel"))
      [] e.kind = "sizes" -> C("default-dimensions", e.n = (CASE e.f \in {"zdt1", "zdt2", "zdt4"} -> 30 [] e.f \in {"zdt3", "zdt6"} -> 10 [] OTHER -> 80) /\ (e.f # "zdt5" \/ e.bits = 80))
      [] e.kind = "noisy" ->      \* noise: one standard normal per coordinate, drawn anew at every evaluation
            C("noise-mean", Near(e.mean, 1000 * F!Quartic(e.X), 160 * (1 + Len(e.X)))) \cup C("noise-spread", Near(e.var, 1000 * Len(e.X), 240 * Len(e.X)))
            \cup C("noise-repeated", e.distinct = e.n) \cup C("direction", ~e.isdir) \cup C("bounds", e.bounds = F!Bounds("quartic"))
      [] e.kind = "lunacek-default" ->     \* s = 1 - 1/(2 sqrt(N+20) - 8.2),  mu2 = -sqrt((mu1^2 - d)/s)
            C("lunacek-s", Near((1000000 - e.s) * (20 * e.r - 82), 10000000, 200)) \cup C("lunacek-mu2", Near(e.smu, 5250, 2) /\ e.neg) \cup C("lunacek-mu1", e.mu1 = 10 /\ e.d = 1)
            \cup C("lunacek-bottoms", e.opt = 0 /\ Near(e.second, 1000 * e.N + e.sin, 2))
      [] e.kind = "two" ->
            LET w == F!Pair(e.f, e.a)  t == F!PairTol(e.f) IN
            C("objectives", e.nv = 2) \cup C("first-objective", Near(e.v[1], w[1], t[1])) \cup C("second-objective", Near(e.v[2], w[2], t[2])) \cup C("repeatable", e.again = e.v)
            \cup C("point-changed", e.same) \cup C("direction", e.mins)
            \cup C("bounds", e.bounds = CASE e.f = "sch" -> <<>> [] e.f = "zdt4" -> [ k \in 1..e.n |-> IF k = 1 THEN <<0, 1>> ELSE <<-5, 5>> ]
                                          [] e.f = "zdt5" -> [ k \in 1..(25 + 5 * e.n) |-> <<0, 1>> ] [] OTHER -> [ k \in 1..e.n |-> <<0, 1>> ])
            \cup C("phenome-length", e.f # "zdt5" \/ e.plen = 25 + 5 * e.n)
      [] e.kind = "outside" -> C("refuses-exactly-outside", e.refused = (e.check /\ ~e.inside))
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
