------------------------------ MODULE NeuralNet ------------------------------
(* Feed-forward networks decoded from a flat genome, the executables wrapped   *)
(* around them, and the keyboard controller.  A network is a sequence of       *)
(* weight matrices; matrix l has one row per output of the layer before it     *)
(* plus a last row for the bias, one column per node of its own layer.         *)
(* Activations here are "id" and "relu", exact on integers.                    *)
EXTENDS LeapCommon
CONSTANTS Shape, Weights, Inputs, Keys, KeyMap
VARIABLES genome, input, layer, sig, action, held

Layers(shape) == SelectSeq(shape, LAMBDA n : n # 0)
Dims(shape) == LET s == Layers(shape) IN [ l \in 1..(Len(s) - 1) |-> <<s[l] + 1, s[l + 1]>> ]
Size(shape) == SumSeq([ l \in 1..Len(Dims(shape)) |-> Dims(shape)[l][1] * Dims(shape)[l][2] ])
Offset(shape, l) == SumSeq([ k \in 1..(l - 1) |-> Dims(shape)[k][1] * Dims(shape)[k][2] ])
W(g, shape, l, r, c) == g[Offset(shape, l) + (r - 1) * Dims(shape)[l][2] + c]
Act(a, x) == IF a = "relu" THEN Max2(0, x) ELSE x
LayerOut(g, shape, l, a, x) ==
    [ c \in 1..Dims(shape)[l][2] |->
        Act(a, SumSeq([ r \in 1..Len(x) |-> x[r] * W(g, shape, l, r, c) ]) + W(g, shape, l, Len(x) + 1, c)) ]
RECURSIVE Fwd(_, _, _, _, _)
Fwd(g, shape, l, a, x) == IF l > Len(Dims(shape)) THEN x ELSE Fwd(g, shape, l + 1, a, LayerOut(g, shape, l, a, x))
Forward(g, shape, a, x) == Fwd(g, shape, 1, a, x)

\* the graph of the network: nodes <<layer, index>> (layer 0 = inputs), <<-1, 0>> = bias
Edges(g, shape) ==
    LET D == Dims(shape) IN
    UNION { { [from |-> IF r = D[l][1] THEN <<-1, 0>> ELSE <<l - 1, r - 1>>, to |-> <<l, c - 1>>, w |-> W(g, shape, l, r, c)]
              : r \in 1..D[l][1], c \in 1..D[l][2] } : l \in 1..Len(D) }
Nodes(shape) == LET s == Layers(shape) IN { <<-1, 0>> } \cup UNION { { <<l - 1, i>> : i \in 0..(s[l] - 1) } : l \in 1..Len(s) }
ArgMax(v) == SetMin({ i \in 1..Len(v) : \A j \in 1..Len(v) : v[j] <= v[i] }) - 1

E1 == <<100000, 36788, 13534, 4979, 1832, 674, 248, 91, 34, 12, 5, 2, 1>>     \* 10^5 exp(-k)
Ex(k) == IF k + 1 > Len(E1) THEN 0 ELSE E1[k + 1]
\* logistic function: v (x10^4) at the integer x
SigmoidOK(x, v) == LET e == Ex(Abs(x))  w == IF x >= 0 THEN v ELSE 10000 - v IN Abs(w * (10000 + e \div 10) - 100000000) <= 30000
RECURSIVE ExpSum(_, _)
ExpSum(xs, m) == IF xs = <<>> THEN 0 ELSE Ex(m - Head(xs)) + ExpSum(Tail(xs), m)
SoftmaxOK(xs, vs) ==      \* vs x10^4
    LET m == SetMax(Elems(xs))  s == ExpSum(xs, m) IN
    /\ Len(vs) = Len(xs) /\ Abs(SumSeq(vs) - 10000) <= Len(xs)
    /\ \A i \in 1..Len(xs) : Abs((vs[i] * (s \div 100)) - 100 * Ex(m - xs[i])) <= 4 * (s \div 100) + 10000

\* keyboard controller: the action of the key pressed last, back to 0 when a key of that action is released
Press(map, a, k) == map[k]
Release(map, a, k) == IF map[k] = a THEN 0 ELSE a
RECURSIVE KeyRun(_, _, _)
KeyRun(map, a, es) == IF es = <<>> THEN <<>> ELSE
    LET e == Head(es)  b == CASE e.do = "press" -> Press(map, a, e.key) [] e.do = "release" -> Release(map, a, e.key) [] OTHER -> a
    IN <<b>> \o KeyRun(map, b, Tail(es))

Init == /\ genome \in [1..Size(Shape) -> Weights] /\ input \in [1..Layers(Shape)[1] -> Inputs] /\ layer = 1 /\ sig = input /\ action = 0 /\ held = {}
Step == layer <= Len(Dims(Shape)) /\ sig' = LayerOut(genome, Shape, layer, "relu", sig) /\ layer' = layer + 1 /\ UNCHANGED <<genome, input, action, held>>
Key == /\ layer > Len(Dims(Shape)) /\ (\A i \in 1..Len(genome) : genome[i] = 0) /\ (\A i \in 1..Len(input) : input[i] = 0)
       /\ UNCHANGED <<genome, input, layer, sig>>
       /\ \E k \in Keys : \/ k \notin held /\ action' = Press(KeyMap, action, k) /\ held' = held \cup {k}
                          \/ k \in held /\ action' = Release(KeyMap, action, k) /\ held' = held \ {k}
Next == Step \/ Key
vars == <<genome, input, layer, sig, action, held>>
Spec == Init /\ [][Next]_vars
Widths == Len(sig) = Layers(Shape)[layer]
Rectified == layer > 1 => \A i \in 1..Len(sig) : sig[i] >= 0
WholeIsLayers == layer > Len(Dims(Shape)) => sig = Forward(genome, Shape, "relu", input)
\* an identity network is affine: f(x) - f(0) is additive
Zero == [ i \in 1..Len(input) |-> 0 ]
Twice == [ i \in 1..Len(input) |-> 2 * input[i] ]
Affine == LET f(x) == Forward(genome, Shape, "id", x) IN
    layer = 1 => \A o \in 1..Len(f(input)) : f(Twice)[o] - f(Zero)[o] = 2 * (f(input)[o] - f(Zero)[o])
\* the graph determines the network: distinct genomes have distinct graphs, one edge per weight
EdgePerWeight == layer = 1 => Cardinality(Edges(genome, Shape)) = Size(Shape)
EndsAreNodes == layer = 1 => \A e \in Edges(genome, Shape) : e.from \in Nodes(Shape) /\ e.to \in Nodes(Shape)
\* the pressed action is one that is held, or none
Controlled == held = {} => action = 0
HeldAction == action # 0 => \E k \in held : KeyMap[k] = action
ShapeA == <<1, 2, 0, 1>>
ShapeB == <<2, 1, 2>>
WN == {-1, 0, 2}
IN2 == {-1, 0, 3}
MapDef == [ k \in Keys |-> IF k = 3 THEN 1 ELSE k ]
MapInj == [ k \in Keys |-> k ]
=============================================================================
