------------------------------ MODULE Convexity ------------------------------
(* Convexity tests of exploratory landscape analysis: random pairs of the      *)
(* design, a point on the segment between them (weights a/Q and (Q-a)/Q), and  *)
(* delta = f(point) - (weighted mean of the two fitnesses).                    *)
(* Model: one-dimensional integer design scaled by Q, three landscapes.        *)
EXTENDS LeapCommon
CONSTANTS Points, Q, MaxTests
VARIABLES tests       \* sequence of [x, y, a]

\* landscapes on numerators over Q, value x Q^2
F(l, n) == CASE l = "linear" -> (3 * n + 2 * Q) * Q [] l = "convex" -> n * n [] l = "concave" -> -(n * n) [] OTHER -> Abs(n) * Q
At(t) == t.a * t.x + (Q - t.a) * t.y                    \* numerator over Q
Delta(l, t) == F(l, At(t)) - (t.a * F(l, Q * t.x) + (Q - t.a) * F(l, Q * t.y)) \div Q
CountIf(l, P(_)) == Cardinality({ k \in 1..Len(tests) : P(Delta(l, tests[k])) })

Init == tests = <<>>
Test == Len(tests) < MaxTests /\ \E x, y \in Points, a \in 0..Q : x # y /\ tests' = Append(tests, [x |-> x, y |-> y, a |-> a])
Next == Test
vars == tests
Spec == Init /\ [][Next]_vars
LinearIsZero == \A k \in 1..Len(tests) : Delta("linear", tests[k]) = 0
ConvexBelow == \A k \in 1..Len(tests) : Delta("convex", tests[k]) <= 0 /\ Delta("vee", tests[k]) <= 0
ConcaveAbove == \A k \in 1..Len(tests) : Delta("concave", tests[k]) >= 0
EndsAreZero == \A k \in 1..Len(tests) : tests[k].a \in {0, Q} => \A l \in {"linear", "convex", "concave", "vee"} : Delta(l, tests[k]) = 0
Exclusive == \A l \in {"linear", "convex", "concave", "vee"} : CountIf(l, LAMBDA d : d < -1) + CountIf(l, LAMBDA d : Abs(d) < 1) <= Len(tests)

\* ---- what a recorded analysis must satisfy (values x1000, rounded) ----
Near(a, b, t) == Abs(a - b) <= t
\* p on the segment x..y with the weight that also mixes the fitnesses
OnSegment(x, y, p, fx, fy, f) ==
    /\ \A c \in 1..Len(p) : Min2(x[c], y[c]) - 1 <= p[c] /\ p[c] <= Max2(x[c], y[c]) + 1
    /\ Min2(fx, fy) - 1 <= f /\ f <= Max2(fx, fy) + 1
    /\ \A c \in 1..Len(p) : Near(((p[c] - y[c]) * ((fx - fy) \div 1000)), ((f - fy) * ((x[c] - y[c]) \div 1000)), 2 + Abs(fx - fy) \div 1000 + Abs(x[c] - y[c]) \div 1000)
ShareOK(share, ds, P(_), Q2(_)) ==     \* share x1000; P: surely counted, Q2: possibly counted
    LET n == Len(ds)  lo == Cardinality({ k \in 1..n : P(ds[k]) })  hi == Cardinality({ k \in 1..n : Q2(ds[k]) })
    IN share * n >= 1000 * lo - n /\ share * n <= 1000 * hi + n
=============================================================================
