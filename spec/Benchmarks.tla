----------------------------- MODULE Benchmarks -----------------------------
(* The real-valued benchmark functions of LEAP at the points of a lattice on   *)
(* which they have closed rational values (quarter units for polynomials and   *)
(* cosines of 2 pi x; multiples of pi/2 under the root or square where that is *)
(* what makes the sine rational), or rational combinations of exp(-k) read     *)
(* from a table.  Values are scaled integers: Want(f, par, X) ~ value*Scale.   *)
EXTENDS LeapCommon
CONSTANTS Bound, Dim
VARIABLES pt          \* a point of the lattice (quarter units), walked by the model

C4(m) == LET r == m % 4 IN IF r = 0 THEN 1 ELSE IF r = 2 THEN -1 ELSE 0      \* cos(m pi/2)
S4(m) == C4(m - 1)                                                            \* sin(m pi/2)
E10 == <<1000000, 904837, 818731, 740818, 670320, 606531, 548812, 496585, 449329, 406570, 367879, 332871, 301194, 272532, 246597, 223130, 201897, 182684, 165299, 149569, 135335, 122456, 110803, 100259, 90718, 82085, 74274, 67206, 60810, 55023, 49787, 45049, 40762, 36883, 33373, 30197, 27324, 24724, 22371, 20242, 18316, 16573, 14996, 13569, 12277, 11109, 10052, 9095, 8230, 7447, 6738, 6097, 5517, 4992, 4517, 4087, 3698, 3346, 3028, 2739, 2479>>     \* 10^6 exp(-k/10)
EPI == <<1000000, 727377, 529078, 384839, 279923, 203610, 148101, 107725, 78357, 56995, 41457, 30155, 21934, 15954, 11605, 8441, 6140, 4466, 3248, 2363, 1719, 1250, 909, 661, 481, 350, 255, 185, 135, 98, 71, 52, 38, 27, 20, 15, 11, 8, 6, 4, 3>>     \* 10^6 exp(-k/pi)
E1  == <<1000000, 367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2, 1>>     \* 10^6 exp(-k)
E3  == <<1000000, 716531, 513417, 367879, 263597, 188876, 135335, 96972, 69483, 49787, 35674, 25562, 18316>>     \* 10^6 exp(-k/3)
E4PI == <<100000, 92351, 85286, 78763, 72738, 67174, 62035, 57290, 52908, 48861, 45123, 41672, 38484, 35540, 32822, 30311, 27992, 25851, 23874, 22047, 20361, 18804, 17365, 16037, 14810, 13677, 12631, 11665, 10773, 9949, 9188, 8485, 7836, 7236, 6683, 6172, 5700, 5264, 4861, 4489, 4146, 3829, 3536, 3265, 3015, 2785, 2572, 2375, 2193, 2026, 1871, 1728, 1595, 1473, 1361, 1257, 1160, 1072, 990, 914, 844, 780, 720, 665, 614, 567, 524, 484, 447, 412, 381, 352, 325, 300, 277, 256, 236, 218, 202, 186, 172, 159, 147, 135, 125, 115, 107, 98, 91, 84, 78, 72, 66, 61, 56, 52, 48, 44, 41, 38, 35, 32, 30, 28, 25, 24, 22, 20, 19, 17, 16, 15, 13, 12, 11, 11, 10, 9, 8, 8, 7, 7, 6, 6, 5, 5, 4, 4, 4, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>     \* 10^5 exp(-k/(4 pi))
Exp4Pi(k) == IF k + 1 > Len(E4PI) THEN 0 ELSE E4PI[k + 1]
C8(n) == <<1000, 707, 0, -707, -1000, -707, 0, 707>>[(n % 8) + 1]      \* 1000 cos(n pi/4)
Exp10(k) == IF k + 1 > Len(E10) THEN 0 ELSE E10[k + 1]
ExpPi(k) == IF k + 1 > Len(EPI) THEN 0 ELSE EPI[k + 1]
Exp1(k)  == IF k + 1 > Len(E1) THEN 0 ELSE E1[k + 1]
Sum(X, f(_)) == SumSeq([ i \in 1..Len(X) |-> f(X[i]) ])
SumI(X, f(_, _)) == SumSeq([ i \in 1..Len(X) |-> f(i, X[i]) ])
Sq(x) == x * x
RECURSIVE PowMod(_, _, _)
PowMod(b, e, q) == IF e = 0 THEN 1 % q ELSE (b * PowMod(b, e - 1, q)) % q
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
Sgn(x) == IF x < 0 THEN -1 ELSE 1

Sphere(X) == Sum(X, Sq)                                                                        \* x16
Rastrigin(a, X) == 16 * a * Len(X) + Sum(X, LAMBDA x : x * x - 16 * a * C4(x))                  \* x16
Rosenbrock(X) == SumSeq([ i \in 1..(Len(X) - 1) |-> 100 * Sq(4 * X[i + 1] - X[i] * X[i]) + 16 * Sq(X[i] - 4) ])   \* x256
Step(X) == Sum(X, LAMBDA x : x \div 4)
Lunacek(m1, m2, s, d, X) ==                                                                     \* x16, m1 and m2 in quarters
    Min2(Sum(X, LAMBDA x : Sq(x - m1)), 16 * d * Len(X) + s * Sum(X, LAMBDA x : Sq(x - m2)))
    + 160 * Sum(X, LAMBDA x : 1 - C4(x - m1))
\* r2 = twice the root mean square, defined on points where that is an integer; meanc = mean cosine in {-1, 0, 1}
AckleyOn(X) == /\ \E r2 \in 0..30 : Sum(X, Sq) = 4 * Len(X) * r2 * r2
               /\ Sum(X, C4) \in {-Len(X), 0, Len(X)}
AckleyR2(X) == CHOOSE r2 \in 0..30 : Sum(X, Sq) = 4 * Len(X) * r2 * r2
ExpUnit(s, n) == IF s = n THEN 2718282 ELSE IF s = 0 THEN 1000000 ELSE 367879
Ackley(a, bf, X) == (a * (1000000 - Exp10(AckleyR2(X) * bf)) + 2718282 - ExpUnit(Sum(X, C4), Len(X))) \div 10   \* x10^5, b = bf/5
WeierTerm(b, kmax, m) == SumSeq([ k \in 1..kmax |-> Pow(2, 20 - k) * C4(m * PowMod(b, k - 1, 4)) ])
Weierstrass(kmax, b, X) == Sum(X, LAMBDA x : WeierTerm(b, kmax, x + 2)) - Len(X) * WeierTerm(b, kmax, 2)    \* x2^19, a = 1/2
Langermann(c, A, X) ==                                                                          \* x1000, integer coordinates
    SumSeq([ i \in 1..Len(A) |-> LET d == SumSeq([ j \in 1..Len(X) |-> Sq(X[j] - A[i][j]) ]) IN
             -(c[i] * ExpPi(d) * (IF d % 2 = 0 THEN 1 ELSE -1)) ]) \div 1000
Langermann2(c, A, X) ==                                                                         \* x1000, coordinates in halves
    SumSeq([ i \in 1..Len(A) |-> LET d == SumSeq([ j \in 1..Len(X) |-> Sq(X[j] - 2 * A[i][j]) ]) IN -(c[i] * Exp4Pi(d) * C8(d)) ]) \div 100000
Langermann3(c, A, X) ==                                                                         \* x1000, coordinates and peaks in halves
    SumSeq([ i \in 1..Len(A) |-> LET d == SumSeq([ j \in 1..Len(X) |-> Sq(X[j] - A[i][j]) ]) IN -(c[i] * Exp4Pi(d) * C8(d)) ]) \div 100000
GaussOn(w, X) == Sum(X, Sq) % (w * w) = 0
Gaussian(w, h, X) == h * Exp1(Sum(X, Sq) \div (w * w))                                          \* x10^6, integer coordinates
Cosine(al, G, L, M) == SumI(M, LAMBDA i, m : LET q == IF G[i] = 1 THEN 0 ELSE m IN -C4(q) - al * C4(q * L[i]))   \* x 2n
Griewank(M) == (616850 * SumI(M, LAMBDA i, m : i * m * m)) \div 1000 + 1000000 - 1000000 * ProdSeq([ i \in 1..Len(M) |-> C4(M[i]) ])   \* x10^6, x_i = sqrt(i) m_i pi/2
Schwefel(alpha, K) == Sum(K, LAMBDA k : -((Sgn(k) * k * k * 2467401 * S4(Abs(k))) \div 1000)) + alpha * Len(K)   \* x1000, x = +-(k pi/2)^2
Quartic(X) == SumI(X, LAMBDA i, x : i * x * x * x * x)                                            \* integer coordinates

Want(f, par, X) ==
    CASE f = "sphere" -> Sphere(X) [] f = "rastrigin" -> Rastrigin(par[1], X) [] f = "rosenbrock" -> Rosenbrock(X) [] f = "step" -> Step(X)
      [] f = "lunacek" -> Lunacek(par[1], par[2], par[3], par[4], X) [] f = "ackley" -> Ackley(par[1], par[2], X)
      [] f = "weierstrass" -> Weierstrass(par[1], par[2], X) [] f = "langermann" -> Langermann(par[1], par[2], X) [] f = "langermann2" -> Langermann2(par[1], par[2], X) [] f = "langermann3" -> Langermann3(par[1], par[2], X)
      [] f = "gaussian" -> Gaussian(par[1], par[2], X) [] f = "cosine" -> Cosine(par[1], par[2], par[3], X)
      [] f = "griewank" -> Griewank(X) [] f = "schwefel" -> Schwefel(par[1], X) [] OTHER -> 0
Scale(f, X) ==
    CASE f \in {"sphere", "rastrigin", "lunacek"} -> 16 [] f = "rosenbrock" -> 256 [] f = "step" -> 1 [] f = "ackley" -> 100000
      [] f = "weierstrass" -> 524288 [] f \in {"langermann", "langermann2", "langermann3"} -> 1000 [] f \in {"gaussian", "griewank"} -> 1000000 [] f = "cosine" -> 2 * Len(X) [] f = "schwefel" -> 1000 [] OTHER -> 1
Tol(f) == CASE f = "ackley" -> 3 [] f = "weierstrass" -> 8 [] f = "langermann" -> 3 [] f \in {"langermann2", "langermann3"} -> 5 [] f = "gaussian" -> 4 [] f = "griewank" -> 120 [] f = "schwefel" -> 6 [] OTHER -> 0
Maximises(f) == f \in {"step", "gaussian"}
Bounds(f) ==      \* x1000
    CASE f \in {"sphere", "rastrigin", "step"} -> <<-5120, 5120>> [] f = "rosenbrock" -> <<-2048, 2048>> [] f = "quartic" -> <<-1280, 1280>>
      [] f = "shekel" -> <<-65536, 65536>> [] f = "griewank" -> <<-600000, 600000>> [] f = "ackley" -> <<-32768, 32768>> [] f = "weierstrass" -> <<-500, 500>>
      [] f \in {"langermann", "langermann2", "langermann3"} -> <<0, 10000>> [] f = "lunacek" -> <<-5000, 5000>> [] f = "schwefel" -> <<-512000, 512000>> [] f = "gaussian" -> <<-3000, 3000>> [] f = "cosine" -> <<0, 1000>>

\* Shekel's foxholes: hole j (0..24) at (16*(j%5)-32, 16*(j\div 5)-32); near a hole the other 24 terms are below 24/14^6
Hole(j) == << 16 * (j % 5) - 32, 16 * (j \div 5) - 32 >>
ShekelOK(k, c, dx, dy, v1000) ==
    LET own == c + Pow(dx, 6) + Pow(dy, 6) IN
    /\ v1000 * (k + own) <= 1000 * k * own + (k + own)
    /\ v1000 * (k + own) >= 1000 * k * own - (1000 * k * own) \div 400 - (k + own)

\* two-objective benchmarks: exact pairs at points where the root is rational
Pair(f, a) ==
    CASE f = "sch" -> << Sq(a.X[1]), Sq(a.X[1] - 8) >>                             \* x16, x16
      [] f = "zdt1" -> << a.k * a.k, 2 * a.g - a.k >>                              \* x4g, x2      x0 = k^2/4g
      [] f = "zdt2" -> << a.k, 16 * a.g * a.g - a.k * a.k >>                       \* x4, x16g     x0 = k/4
      [] f = "zdt3" -> LET t == (5 * a.k * a.k) \div a.g IN << t, 20 * a.g - 10 * a.k - t * S4(t) >>    \* x20, x20   x0 = t/20
      [] f = "zdt4" -> << 16 * a.k * a.k, a.g - 32 * a.k >>                        \* xG, x64      G = 64 g, x0 = 16 k^2/G
      [] f = "zdt5" -> << 1 + a.k, Sum(a.X, LAMBDA u : IF u < 5 THEN 2 + u ELSE 1) >>     \* x1, x f1
      [] f = "zdt6" -> LET f1 == IF a.k % 2 = 0 THEN 100000 ELSE 100000 - E3[a.k + 1] \div 10
                           f1k == f1 \div 100  g4 == 4 + 9 * a.g IN << f1, 250 * g4 - (4 * f1k * f1k) \div (1000 * g4) >>    \* x10^5, x1000
G4(X) == 64 + 640 * Len(X) + Sum(X, LAMBDA x : x * x - 640 * C4(x))               \* 64 g of zdt4, tail in eighths
PairTol(f) == IF f = "zdt6" THEN << 2, 4 >> ELSE << 0, 0 >>
PairScale(f, a) == CASE f = "sch" -> <<16, 16>> [] f = "zdt1" -> <<4 * a.g, 2>> [] f = "zdt2" -> <<4, 16 * a.g>> [] f = "zdt3" -> <<20, 20>>
                     [] f = "zdt4" -> <<a.g, 64>> [] f = "zdt5" -> <<1, 1 + a.k>> [] f = "zdt6" -> <<100000, 1000>>

Init == pt = [ i \in 1..Dim |-> 0 ]
Next == \E i \in 1..Dim, s \in {-1, 1} : /\ pt[i] + s \in -Bound..Bound /\ pt' = [pt EXCEPT ![i] = @ + s]
vars == pt
Spec == Init /\ [][Next]_vars
Zero == [ i \in 1..Dim |-> 0 ]
Ones == [ i \in 1..Dim |-> 4 ]
AtOrigin(v) == v >= 0 /\ (v = 0 <=> pt = Zero)
SphereOptimum == AtOrigin(Sphere(pt))
RastriginOptimum == \A a \in {1, 10} : AtOrigin(Rastrigin(a, pt))
RosenbrockOptimum == Rosenbrock(pt) >= 0 /\ (Dim > 1 => (Rosenbrock(pt) = 0 <=> pt = Ones))
AckleyOptimum == AckleyOn(pt) => AtOrigin(Ackley(20, 1, pt))
GriewankOptimum == AtOrigin(Griewank(pt))
WeierstrassOptimum == Weierstrass(20, 3, pt) >= 0 /\ ((\A i \in 1..Dim : Abs(pt[i]) <= 2) => AtOrigin(Weierstrass(20, 3, pt)))
GaussOptimum == GaussOn(1, pt) => (Gaussian(1, 3, pt) <= 3000000 /\ (Gaussian(1, 3, pt) = 3000000 <=> pt = Zero))
\* both funnels of Lunacek have their bottoms where the parameters say
LunacekFunnels == /\ Lunacek(10, -10, 1, 1, [ i \in 1..Dim |-> 10 ]) = 0
                  /\ Lunacek(10, -10, 1, 1, pt) >= 0
\* the cosine family's global optima: exactly those with every coordinate a multiple of 1/(G-1)
CosineOptima == \A G \in {2, 3} : LET v == Cosine(1, [ i \in 1..Dim |-> G ], [ i \in 1..Dim |-> 2 ], pt) IN
                v >= -2 * Dim /\ (v = -2 * Dim <=> \A i \in 1..Dim : pt[i] % 4 = 0)
\* symmetric functions do not change when all coordinates are mirrored or the order is reversed
Mirror == [ i \in 1..Dim |-> -pt[i] ]
Swap == [ i \in 1..Dim |-> pt[Dim + 1 - i] ]
Symmetry == /\ Sphere(pt) = Sphere(Mirror) /\ Sphere(pt) = Sphere(Swap) /\ Rastrigin(3, pt) = Rastrigin(3, Mirror) /\ Rastrigin(3, pt) = Rastrigin(3, Swap)
            /\ Weierstrass(5, 3, pt) = Weierstrass(5, 3, Mirror) /\ Griewank(pt) = Griewank(Mirror)
            /\ Cosine(2, [ i \in 1..Dim |-> 3 ], [ i \in 1..Dim |-> 2 ], pt) = Cosine(2, [ i \in 1..Dim |-> 3 ], [ i \in 1..Dim |-> 2 ], Mirror)
\* the Pareto front of the ZDT problems lies at g = 1: at equal first objective a larger g is dominated
ZDTFront == \A g \in 2..5, k \in 0..4 : /\ Pair("zdt2", [g |-> g, k |-> k])[2] > g * Pair("zdt2", [g |-> 1, k |-> k])[2]
                                          /\ (pt[1] = 0 => Pair("zdt1", [g |-> g, k |-> 0])[2] > Pair("zdt1", [g |-> 1, k |-> 0])[2])
=============================================================================
