----------------------------- MODULE Landscapes -----------------------------
(* Transformed landscapes: a stack of wrappers around a base problem.  A       *)
(* wrapper is <<"t", offset>> (translation), <<"m", matrix>> or                *)
(* <<"s", lo, hi>> (rescaling of the wrapped problem's bounds to lo..hi).      *)
(* Evaluating the stack at x evaluates the base problem once, at the point     *)
(* obtained by undoing the wrappers from the outermost to the innermost.       *)
(* Coordinates and bounds are integers in units of 1/Unit.                     *)
EXTENDS LeapCommon
CONSTANTS Wrappers, MaxDepth, BaseBounds, Points
VARIABLES stack, pt

Dot(a, b) == SumSeq([ i \in 1..Len(a) |-> a[i] * b[i] ])
Sq(x) == x * x
RECURSIVE BoundsOf(_, _)
BoundsOf(s, base) == IF s = <<>> THEN base
                     ELSE LET w == s[Len(s)] IN IF w[1] = "s" THEN <<w[2], w[3]>> ELSE BoundsOf(SubSeq(s, 1, Len(s) - 1), base)
\* one wrapper undone; inner: bounds of what it wraps
Undo(w, inner, x) ==
    CASE w[1] = "t" -> [ i \in 1..Len(x) |-> x[i] - w[2][i] ]
      [] w[1] = "m" -> [ i \in 1..Len(x) |-> Dot(w[2][i], x) ]
      [] w[1] = "s" -> [ i \in 1..Len(x) |-> inner[1] + ((x[i] - w[2]) * (inner[2] - inner[1])) \div (w[3] - w[2]) ]
Exact(w, inner, x) == w[1] = "s" => \A i \in 1..Len(x) : ((x[i] - w[2]) * (inner[2] - inner[1])) % (w[3] - w[2]) = 0
RECURSIVE Seen(_, _, _)
Seen(s, base, x) == IF s = <<>> THEN x ELSE LET r == SubSeq(s, 1, Len(s) - 1) IN Seen(r, base, Undo(s[Len(s)], BoundsOf(r, base), x))
RECURSIVE AllExact(_, _, _)
AllExact(s, base, x) == s = <<>> \/ LET r == SubSeq(s, 1, Len(s) - 1) IN Exact(s[Len(s)], BoundsOf(r, base), x) /\ AllExact(r, base, Undo(s[Len(s)], BoundsOf(r, base), x))
\* direction: own choice of the outermost wrapper that made one, else that of the base
RECURSIVE Dir(_, _)
Dir(choices, base) == IF choices = <<>> THEN base ELSE LET c == choices[Len(choices)] IN IF c = "inherit" THEN Dir(SubSeq(choices, 1, Len(choices) - 1), base) ELSE c = "max"

Parabola(R, D, x) == SumSeq([ k \in 1..Len(D) |-> D[k] * Sq(Dot(R[k], x)) ])
Basin(b, x) == Parabola(b.R, b.D, [ i \in 1..Len(x) |-> x[i] - b.o[i] ]) + b.v
Quadratic(bs, x) == SetMin({ Basin(bs[k], x) : k \in 1..Len(bs) })

Init == stack = <<>> /\ pt \in Points
Wrap == Len(stack) < MaxDepth /\ \E w \in Wrappers : stack' = Append(stack, w) /\ UNCHANGED pt
Next == Wrap
vars == <<stack, pt>>
Spec == Init /\ [][Next]_vars
Dist2(a, b) == SumSeq([ i \in 1..Len(a) |-> Sq(a[i] - b[i]) ])
Rigid(s) == \A k \in 1..Len(s) : s[k][1] # "s" /\ (s[k][1] = "m" => \A i, j \in 1..Len(s[k][2]) : Dot(s[k][2][i], s[k][2][j]) = IF i = j THEN 1 ELSE 0)
\* translations and orthonormal matrices move the landscape without deforming it
RigidMotion == Rigid(stack) => \A q \in Points : Dist2(Seen(stack, BaseBounds, pt), Seen(stack, BaseBounds, q)) = Dist2(pt, q)
\* rescaling maps the corners of the new box to the corners of the old one
Corners == (stack # <<>> /\ stack[Len(stack)][1] = "s") =>
    LET w == stack[Len(stack)]  r == SubSeq(stack, 1, Len(stack) - 1)  b == BoundsOf(r, BaseBounds)
        c(v) == [ i \in 1..Len(pt) |-> v ] IN
    /\ Seen(stack, BaseBounds, c(w[2])) = Seen(r, BaseBounds, c(b[1]))
    /\ Seen(stack, BaseBounds, c(w[3])) = Seen(r, BaseBounds, c(b[2]))
\* two translations add up; a translation is undone by its negative
Additive == (Len(stack) = 2 /\ stack[1][1] = "t" /\ stack[2][1] = "t") =>
    Seen(stack, BaseBounds, pt) = Undo(<<"t", [ i \in 1..Len(pt) |-> stack[1][2][i] + stack[2][2][i] ]>>, BaseBounds, pt)
\* a translated landscape has its origin at the offset
OriginAtOffset == (Len(stack) = 1 /\ stack[1][1] = "t") => Seen(stack, BaseBounds, stack[1][2]) = [ i \in 1..Len(pt) |-> 0 ]
\* a quadratic family is never below its deepest basin and reaches every global optimum
Family == << [R |-> <<<<1, 0>>, <<0, 1>>>>, D |-> <<2, 4>>, o |-> <<-1, -1>>, v |-> 0], [R |-> <<<<0, -1>>, <<1, 0>>>>, D |-> <<5, 1>>, o |-> <<3, 4>>, v |-> 10], [R |-> <<<<0, 1>>, <<1, 0>>>>, D |-> <<1, 1>>, o |-> <<0, 2>>, v |-> 0] >>
QuadraticOptima == Len(pt) = 2 => (Quadratic(Family, pt) >= 0 /\ (Quadratic(Family, pt) = 0 <=> pt \in {<<-1, -1>>, <<0, 2>>}))
=============================================================================
