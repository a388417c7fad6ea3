--------------------------- MODULE TraceLandscapes ---------------------------
EXTENDS LeapCommon, TraceBase
L == INSTANCE Landscapes WITH Wrappers <- {}, MaxDepth <- 0, BaseBounds <- <<0, 0>>, Points <- {}, stack <- <<>>, pt <- <<>>
VARIABLE i
Base == <<-64, 64>>
\* rows of unit length, pairwise orthogonal (entries x10^4, rounded)
Orthonormal(Q) == \A a, b \in 1..Len(Q) : Abs(L!Dot(Q[a], Q[b]) - (IF a = b THEN 100000000 ELSE 0)) <= 60000
Within(x, b) == b[1] <= x /\ x <= b[2]
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "stack" ->
            C("evaluated-at", Len(e.got) = Len(e.points) /\ \A k \in 1..Len(e.points) : L!AllExact(e.stack, Base, e.points[k]) => e.got[k] = L!Seen(e.stack, Base, e.points[k]))
            \cup C("value-passed-on", e.vals = [ k \in 1..Len(e.points) |-> 100 + k ])
            \cup C("point-changed", e.same) \cup C("bounds", e.bounds = L!BoundsOf(e.stack, Base))
      [] e.kind = "dirs" -> LET m == L!Dir(e.choices, e.base) IN C("direction", e.mx = m /\ e.up = m /\ e.down = ~m /\ e.eq)
      [] e.kind = "fam" ->
            C("nearest-basin", e.vals = [ k \in 1..Len(e.pts) |-> L!Quadratic(e.fam, e.pts[k]) ])
            \cup C("parabaloid", e.pv = [ k \in 1..Len(e.pts) |-> L!Parabola(e.fam[1].R, e.fam[1].D, e.pts[k]) ])
            \cup C("family-shape", e.basins = Len(e.fam) /\ e.dims = Len(e.fam[1].o)) \cup C("direction", ~e.mx) \cup C("inconsistent-parameters-accepted", e.bad)
      [] e.kind = "wrong" -> C("wrong-dimension-evaluated", e.refused /\ e.reached = 0)
      [] e.kind = "list" -> C("list-misread", e.ok)
      [] e.kind = "gen" ->
            C("generated-shape", e.n = e.basins /\ e.dims = e.wantdims /\ Len(e.at) = e.n /\ e.distinct = e.n)
            \cup C("generated-optima", Cardinality({ k \in 1..e.n : e.v[k] = 0 }) = e.glob /\ \A k \in 1..e.n : e.v[k] = 0 => e.at[k] = 0)
            \cup C("generated-depths", \A k \in 1..e.n : (e.v[k] = 0 \/ Within(e.v[k], <<e.F[1] - 1, e.F[2] + 1>>)) /\ e.at[k] <= e.v[k])
            \cup C("generated-places", \A k \in 1..e.n : \A c \in 1..Len(e.offs[k]) : Within(e.offs[k][c], e.O))
            \cup C("generated-widths", \A k \in 1..e.n : \A c \in 1..Len(e.diag[k]) : Within(e.diag[k][c], e.W))
            \cup C("generated-rotations", \A k \in 1..e.n : Orthonormal(e.mats[k]))
            \cup C("never-below-optimum", \A k \in 1..Len(e.rnd) : e.rnd[k] >= (IF e.glob > 0 THEN 0 ELSE e.F[1] - 1))
            \cup C("recorded-optimum", e.glob = 0 \/ (e.ropt = 0 /\ \E k \in 1..e.n : e.v[k] = 0 /\ e.offs[k] = e.opt))
      [] e.kind = "ortho" -> C("orthonormal", \A k \in 1..Len(e.Q) : Orthonormal(e.Q[k])) \cup C("fresh-matrix", Len(e.Q[1]) = 1 \/ e.Q[1] # e.Q[2])
      [] e.kind = "randoff" -> C("offset-in-bounds", Len(e.offs) = e.n30 /\ \A k \in 1..Len(e.offs) : Within(e.offs[k], <<e.lo, e.hi - 1>>))
            \cup C("offset-spread", \A q \in 0..2 : \E k \in 1..Len(e.offs) : 3 * (e.offs[k] - e.lo) >= q * (e.hi - e.lo) /\ 3 * (e.offs[k] - e.lo) <= (q + 1) * (e.hi - e.lo))
            \cup C("dimensions-not-independent", e.flat = 0 /\ e.distinct = 60)
            \cup C("origin-at-offset", \A k \in 1..Len(e.at0) : \A c \in 1..Len(e.at0[k]) : e.at0[k][c] = 0) \cup C("direction", e.mx)
      [] e.kind = "grid" ->
            LET xs == { x \in e.xl[1]..(e.xl[2] - 1) : (x - e.xl[1]) % e.gr = 0 }  ys == { y \in e.yl[1]..(e.yl[2] - 1) : (y - e.yl[1]) % e.gr = 0 } IN
            C("plotted-points", Elems(e.seen) = { <<x, y>> \o e.pad : x \in xs, y \in ys })
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
