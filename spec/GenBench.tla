------------------------------ MODULE GenBench ------------------------------
(* All lattice points within bounds for every benchmark function.             *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS B, MaxDim, Some
VARIABLE d
F == INSTANCE Benchmarks WITH Bound <- 0, Dim <- 1, pt <- <<0>>
Pts(lo, hi, n) == { s \in SeqsUpTo(lo..hi, n) : s # <<>> }
Cs(f, pars, pts) == SetToSeq({ [f |-> f, par |-> p, X |-> x, sc |-> F!Scale(f, x)] : p \in pars, x \in pts })
Small == Pts(-B, B, MaxDim)
Low == Pts(-3, 3, MaxDim + 1)
DefA == << <<3, 5>>, <<5, 2>>, <<2, 1>>, <<1, 4>>, <<7, 9>> >>
Scalar ==
    Cs("sphere", {<<>>}, Small \cup Low)
    \o Cs("rastrigin", { <<a>> : a \in {1, 2, 10} }, Small) \o Cs("rastrigin", {<<10>>}, Low)
    \o Cs("rosenbrock", {<<>>}, Small \cup Low)
    \o Cs("step", {<<>>}, Small \cup Low)
    \o Cs("lunacek", {<<10, -10, 1, 1>>, <<4, -6, 2, 3>>, <<-2, 6, 1, 0>>, <<10, -9, 3, 2>>, <<3, -6, 2, 1>>, <<9, -7, 1, 2>>}, { x \in Small : Len(x) <= 2 })
    \o SetToSeq({ [f |-> "ackley", par |-> p, X |-> x, sc |-> 100000] : p \in {<<20, 1>>, <<10, 2>>, <<1, 5>>}, x \in { y \in Small \cup Pts(-12, 12, 2) : F!AckleyOn(y) } })
    \o Cs("weierstrass", {<<20, 3>>, <<3, 3>>, <<5, 2>>, <<12, 5>>}, Pts(-4, 4, 2))
    \o Cs("langermann", { <<c, DefA>> : c \in {<<1, 2, 5, 2, 3>>, <<3, -1, 1, 4, 2>>} }, { <<x, y>> : x \in 0..10, y \in 0..10 })
    \o Cs("langermann2", { <<c, DefA>> : c \in {<<1, 2, 5, 2, 3>>, <<3, -1, 1, 4, 2>>} }, { <<x, y>> : x \in 0..20, y \in 0..20 })
    \o Cs("langermann3", {<< <<2, -3>>, << <<1, 5>>, <<3, 4>> >> >>, << <<1, 2, 3>>, << <<1, 1>>, <<7, 3>>, <<2, 9>> >> >>}, { <<x, y>> : x \in -1..10, y \in 0..9 })
    \o Cs("langermann", {<< <<2, -3>>, << <<1, 0, 2>>, <<0, 3, 1>> >> >>}, { x \in Pts(-1, 3, 3) : Len(x) = 3 })
    \o SetToSeq({ [f |-> "gaussian", par |-> p, X |-> x, sc |-> 1000000] : p \in { <<1, 1>>, <<1, 3>>, <<1, -2>> }, x \in Pts(-3, 3, 2) })
    \o SetToSeq({ [f |-> "gaussian", par |-> <<2, h>>, X |-> x, sc |-> 1000000] : h \in {1, 4}, x \in { y \in Pts(-4, 4, 3) : F!GaussOn(2, y) } })
    \o Cs("griewank", {<<>>}, Pts(-5, 5, 2) \cup Pts(-2, 2, 4) \cup { <<m>> : m \in {-55, 50} } \cup { <<m, 1>> : m \in {-50, 55} })
    \o Cs("schwefel", { <<a>> : a \in {418983, 1000, 0} }, Pts(-9, 9, 2))
    \o SetToSeq(UNION { { [f |-> "cosine", par |-> <<al, g, l>>, X |-> x, sc |-> 2 * Len(x)] : g \in [1..Len(x) -> {1, 2, 4}], l \in [1..Len(x) -> {1, 2, 3}], al \in {1, 3} } : x \in { y \in Pts(-2, 5, 2) : Len(y) = 1 \/ (y[1] + 3 * y[2]) % Some = 0 } })
Shekel == SetToSeq({ [f |-> "shekel", k |-> k, c |-> c, j |-> j, dx |-> x, dy |-> y] : k \in {500, 100}, c \in {0, 3}, j \in 0..24, x \in -2..2, y \in {-2, 0, 1, 2} })
Noisy == SetToSeq({ [f |-> "quartic", X |-> x] : x \in Pts(-2, 2, 2) \cup {<<1, 0, -1>>, <<0, 0, 0, 0>>} })
Gs == { <<n, c>> \in { <<a, b>> : a \in {2, 4, 10}, b \in 0..9 } : c <= n - 1 }
Gg(nc) == 1 + (9 * nc[2]) \div (nc[1] - 1)
Two ==
    SetToSeq({ [f |-> "sch", X |-> <<x>>, k |-> 0, g |-> 0, n |-> 1, ones |-> 0, sc |-> <<16, 16>>] : x \in -30..30 })
    \o SetToSeq(UNION { { [f |-> "zdt1", k |-> k, g |-> Gg(q), n |-> q[1], ones |-> q[2], X |-> <<>>, sc |-> <<4 * Gg(q), 2>>] : k \in { j \in 0..6 : j * j <= 4 * Gg(q) } } : q \in Gs })
    \o SetToSeq(UNION { { [f |-> "zdt2", k |-> k, g |-> Gg(q), n |-> q[1], ones |-> q[2], X |-> <<>>, sc |-> <<4, 16 * Gg(q)>>] : k \in 0..4 } : q \in Gs })
    \o SetToSeq(UNION { { [f |-> "zdt3", k |-> k, g |-> Gg(q), n |-> q[1], ones |-> q[2], X |-> <<>>, sc |-> <<20, 20>>] :
                   k \in { j \in 0..6 : j * j <= 4 * Gg(q) /\ (5 * j * j) % Gg(q) = 0 } } : q \in Gs })
    \o SetToSeq(UNION { { [f |-> "zdt4", k |-> k, g |-> F!G4(x), n |-> 1 + Len(x), ones |-> 0, X |-> x, sc |-> <<F!G4(x), 64>>] :
                   k \in { j \in {0, 1, 2, 5} : 16 * j * j <= F!G4(x) } } : x \in Pts(-5, 5, 2) \cup {<<-40>>, <<40>>, <<40, -33>>, <<8, 8, 0>>, <<2, 4, 6, 8, 10>>} })
    \o SetToSeq({ [f |-> "zdt5", k |-> u, g |-> 0, n |-> 1 + Len(x), ones |-> 0, X |-> x, sc |-> <<1, 1 + u>>] : u \in {0, 1, 2, 7, 15, 29, 30}, x \in Pts(0, 5, 2) \cup {<<5, 5, 5, 5, 5, 5, 5, 5, 5, 5>>, <<0, 1, 2, 3, 4, 5, 4, 3, 2, 1>>} })
    \o SetToSeq({ [f |-> "zdt6", k |-> m, g |-> u, n |-> n, ones |-> 0, X |-> <<>>, sc |-> <<100000, 1000>>] : m \in 0..12, u \in 0..4, n \in {2, 3, 10} })
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, Scalar \o Shekel \o Noisy \o Two)
Next == UNCHANGED d
=============================================================================
