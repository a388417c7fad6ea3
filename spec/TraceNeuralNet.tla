---------------------------- MODULE TraceNeuralNet ----------------------------
EXTENDS LeapCommon, TraceBase
N == INSTANCE NeuralNet WITH Shape <- <<1, 1>>, Weights <- {}, Inputs <- {}, Keys <- {}, KeyMap <- <<>>, genome <- <<>>, input <- <<>>, layer <- 1, sig <- <<>>, action <- 0, held <- {}
VARIABLE i
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "net" ->
            C("output", e.out = [ k \in 1..Len(e.inputs) |-> N!Forward(e.genome, e.shape, e.act, e.inputs[k]) ])
            \cup C("output-depends-on-history", e.again = e.out[1])
            \cup C("genome-length", e.len = N!Size(e.shape)) \cup C("wrong-length-decoded", e.refused)
            \cup C("sizes", e.nin = N!Layers(e.shape)[1] /\ e.nout = N!Layers(e.shape)[Len(N!Layers(e.shape))] /\ e.nhid = Len(N!Layers(e.shape)) - 2)
            \cup C("genome-changed", e.same)
            \cup C("graph-edges", Elems(e.edges) = N!Edges(e.genome, e.shape) /\ Len(e.edges) = N!Size(e.shape))
            \cup C("graph-nodes", Elems(e.nodes) = N!Nodes(e.shape) /\ Len(e.nodes) = Cardinality(N!Nodes(e.shape)))
      [] e.kind = "sigmoid" -> C("sigmoid", Len(e.vals) = Len(e.xs) /\ \A k \in 1..Len(e.xs) : N!SigmoidOK(e.xs[k], e.vals[k])) \cup C("overflow", ~e.warned)
      [] e.kind = "exact" -> C("weight-precision", e.vals = e.ms)
      [] e.kind = "dflt" -> C("default-activation", LET y == N!Forward(e.g, e.shape, "id", e.x) IN Len(y) = Len(e.vals) /\ \A k \in 1..Len(y) : N!SigmoidOK(y[k], e.vals[k]))
      [] e.kind = "softmax" -> C("softmax", N!SoftmaxOK(e.xs, e.vals)) \cup C("overflow", ~e.warned)
      [] e.kind = "relu" -> C("relu", e.vals = [ k \in 1..Len(e.xs) |-> Max2(0, e.xs[k]) ])
      [] e.kind = "argmax" -> C("argmax", e.got = [ k \in 1..Len(e.vals) |-> N!ArgMax(e.vals[k]) ]) \cup C("argmax-input", e.passed) \cup C("attributes-pass-through", e.attr)
      [] e.kind = "wrapped" -> C("wrapped-decoder", e.calls = <<e.g>> /\ e.out = N!ArgMax(N!Forward(e.g, e.shape, "id", e.x)))
      [] e.kind = "keys" -> C("actions", e.got = N!KeyRun(e.map, 0, e.events)) \cup C("initial-action", e.first = 0)
      [] e.kind = "keyspace" -> C("multi-output-accepted", e.refused = (e.size > 1))
      [] e.kind = "random" -> C("sampled-elsewhere", e.got = e.samples)
      [] e.kind = "graphprobe" ->
            \* due generations draw the best individual's graph, the others leave the picture alone
            LET due(k) == e.gens[k] % e.modulo = 0
                best(k) == { j \in 1..Len(e.pops[k]) : \A m \in 1..Len(e.pops[k]) : ~Worse(e.mx, e.pops[k][j], e.pops[k][m]) }
                RECURSIVE last(_)
                last(k) == IF k = 0 THEN 0 ELSE IF due(k) THEN k ELSE last(k - 1) IN
            C("population-passed-on", e.same)
            \cup C("picture", \A k \in 1..Len(e.gens) : IF last(k) = 0 THEN e.labels[k] = <<>> ELSE e.labels[k] # <<>> /\ \E j \in best(last(k)) : Elems(e.labels[k]) = Elems(e.graphs[last(k)][j]))
            \cup C("line-widths", e.widths = e.wantw)
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
