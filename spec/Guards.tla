------------------------------- MODULE Guards -------------------------------
(* P39: arguments LEAP cannot treat meaningfully are refused (an exception) at   *)
(* the call, before anything is consumed or changed; all others are accepted.     *)
(* A call is [api, a] with a a sequence of small integers; N stands for "not      *)
(* given" (None).  Types: 0 a numpy array, 1 a plain list.  Probabilities are      *)
(* in tenths.                                                                     *)
EXTENDS LeapCommon
N == -99
Apis == {"mutation", "gaussian", "binomial-n", "individual", "phenome-type", "phenome-length", "scaled", "langermann", "environment",
         "pitt-rules", "pitt-memory", "cgp", "cgp-genome", "network", "segments3", "decode-type", "islands", "stop", "alternating", "average",
         "coop", "segmented", "indices", "grouped", "quadratic", "basins", "convexity", "curves", "plot", "bernoulli", "truth-table",
         "repertoire", "objectives", "gaussian-width", "cosine", "keyboard", "rule-plot"}
Domain(api) ==
    CASE api = "mutation" -> {1, 2, 3} \X {1, 2} \X {N, -5, -1, 0, 5, 10, 11, 20} \X {N, 0, 1, 2} \X {0, 1}        \* operator, form, probability, expected number, genome type
      [] api = "gaussian" -> {1, 2} \X {N, 1, 100} \X {N, -1, 0, 1, 50} \X {0, 1}                                 \* form, expected number (100 isotropic), std (50 a vector), genome type
      [] api = "binomial-n" -> (1..6) \X {1, 3, 4, 15, 16, 35, 36, 99, 100, 143, 144}                            \* std, number of coin flips
      [] api = "individual" -> (0..1) \X (0..1)                                                                  \* decoder / problem is a class instead of an instance
      [] api = "phenome-type" -> (1..12) \X {0, 1}
      [] api = "phenome-length" -> (1..7) \X (1..4) \X (1..4)                                                    \* problem, its dimension, length of the phenome
      [] api = "scaled" -> {<<0>>, <<1>>}                                                                         \* wrapped problem has bounds
      [] api = "langermann" -> (1..3) \X (1..2) \X (1..2) \X (1..3)                                              \* m, dimensions of c, dimensions of a, rows of a
      [] api = "environment" -> (-1..2) \X (-1..2) \X (1..3)                                                     \* runs, steps, fitness: 1 reward 2 survival 3 other
      [] api = "pitt-rules" -> (0..3) \X (1..4)                                                                  \* rules, priority: 1 rule order, 2 generality, 3 perimeter, 4 something else
      [] api = "pitt-memory" -> { <<k>> : k \in 0..3 }
      [] api = "cgp" -> (0..2) \X (0..2) \X (0..2) \X (0..2) \X (0..2) \X (0..2) \X (1..2)                        \* primitives, inputs, outputs, layers, nodes, arity; plain or with parameters
      [] api = "cgp-genome" -> (-2..2) \X (1..2)
      [] api = "network" -> (0..4) \X (-1..1)
      [] api = "segments3" -> (1..5) \X (1..4) \X (1..2)                                                          \* tuple length of one segment, its position among 4, Gray or binary
      [] api = "decode-type" -> (0..1) \X (1..4)
      [] api = "islands" -> (1..4) \X (1..4)
      [] api = "stop" -> { <<k>> : k \in -3..3 }
      [] api = "alternating" -> (0..3) \X (-1..2)
      [] api = "average" -> { <<k>> : k \in -2..3 }
      [] api = "coop" -> { <<k>> : k \in -2..3 }
      [] api = "segmented" -> (1..4) \X (1..4)                                                                   \* segments, mutators
      [] api = "indices" -> { <<k>> : k \in 0..3 }                                                                \* 0 none, 1 list, 2 tuple, 3 array
      [] api = "grouped" -> UNION { [1..k -> 1..2] : k \in 1..5 }                                                 \* problem of each individual
      [] api = "quadratic" -> (0..3) \X (0..3) \X (0..3) \X (0..3)
      [] api = "basins" -> (-1..3) \X (0..3) \X (0..1) \X (0..1)                                                  \* basins, global optima, reversed width bounds, reversed offset bounds
      [] api = "convexity" -> (0..5) \X (-1..2)                                                                  \* design points, tests
      [] api = "curves" -> (0..1) \X (0..1) \X (0..1) \X (0..1) \X (0..2) \X (0..1)                               \* column present: time, run, metric, experiment; metrics asked; experiment columns asked
      [] api = "plot" -> { <<k>> : k \in 1..3 }
      [] api = "bernoulli" -> { <<k>> : k \in -3..13 }
      [] api = "truth-table" -> (0..2) \X (0..2) \X (0..1)                                                        \* inputs, outputs, function callable
      [] api = "repertoire" -> (0..3) \X {N, 0, 1, 2, 3}                                                          \* problems, keyword sets
      [] api = "objectives" -> { <<k>> : k \in 0..3 }
      [] api = "gaussian-width" -> { <<k>> : k \in -2..2 }
      [] api = "cosine" -> (1..3) \X (1..4)                                                                      \* number of global counts, number of local counts
      [] api = "keyboard" -> { <<k>> : k \in 1..4 }
      [] api = "rule-plot" -> { <<k>> : k \in 1..4 }
Refused(api, a) ==
    CASE api = "mutation" -> (a[3] = N) = (a[4] = N) \/ (a[3] # N /\ (a[3] < 0 \/ a[3] > 10)) \/ a[5] = 1
      [] api = "gaussian" -> a[2] = N \/ a[3] = N \/ a[3] < 0 \/ a[4] = 1
      [] api = "binomial-n" -> 4 * a[1] * a[1] > a[2]
      [] api = "individual" -> a[1] = 1 \/ a[2] = 1
      [] api = "phenome-type" -> a[2] = 1
      [] api = "phenome-length" -> a[3] # (IF a[1] = 7 THEN 2 ELSE a[2])
      [] api = "scaled" -> a[1] = 0
      [] api = "langermann" -> a[2] # 1 \/ a[3] # 2 \/ a[4] # a[1]
      [] api = "environment" -> a[1] < 1 \/ a[2] < 1 \/ a[3] = 3
      [] api = "pitt-rules" -> a[1] = 0 \/ a[2] # 1
      [] api = "pitt-memory" -> a[1] > 0
      [] api = "cgp" -> \E k \in 1..6 : a[k] = 0
      [] api = "cgp-genome" -> a[1] # 0
      [] api = "network" -> a[1] < 2 \/ a[2] # 0
      [] api = "segments3" -> a[1] # 3
      [] api = "decode-type" -> a[1] = 1
      [] api \in {"islands", "segmented"} -> a[1] # a[2]
      [] api = "stop" -> a[1] < 0
      [] api = "alternating" -> a[1] = 0 \/ a[2] < 1
      [] api \in {"average", "coop", "gaussian-width", "objectives"} -> a[1] < 1
      [] api = "indices" -> a[1] > 1
      [] api = "grouped" -> \E k \in 1..Len(a) : a[k] # a[1]
      [] api = "quadratic" -> \E k \in 2..4 : a[k] # a[1]
      [] api = "basins" -> a[1] < 0 \/ a[2] > a[1] \/ a[3] = 1 \/ a[4] = 1
      [] api = "convexity" -> a[1] <= 2 \/ a[2] < 1
      [] api = "curves" -> a[1] = 0 \/ a[2] = 0 \/ a[4] = 0 \/ a[5] = 0 \/ a[6] = 0 \/ (a[5] > 0 /\ a[3] = 0)
      [] api = "plot" -> a[1] = 3
      [] api = "bernoulli" -> a[1] < 0 \/ a[1] > 10
      [] api = "truth-table" -> a[1] = 0 \/ a[2] = 0 \/ a[3] = 0
      [] api = "repertoire" -> a[2] # N /\ a[2] # a[1]
      [] api = "cosine" -> a[1] # a[2]
      [] api = "keyboard" -> a[1] > 1
      [] api = "rule-plot" -> a[1] < 2
------------------------------------------------------------------------------
(* Model: a client issues calls; a refused call leaves the world as it was, so    *)
(* the next call behaves as if the refused one had never been made.               *)
CONSTANTS Steps, Used
VARIABLES done, world, shadow      \* shadow: the world of a client that never makes the refused calls
vars == <<done, world, shadow>>
Init == done = 0 /\ world = 0 /\ shadow = 0
Effect(w, api, a) == IF Refused(api, a) THEN w ELSE (w * 3 + Len(a)) % 1009
Call == \E api \in Used : \E a \in Domain(api) :
            /\ done < Steps /\ done' = done + 1
            /\ world' = Effect(world, api, a)
            /\ shadow' = IF Refused(api, a) THEN shadow ELSE Effect(shadow, api, a)
Spec == Init /\ [][Call]_vars
AsIfNever == world = shadow
BothSides == \A api \in Apis : (\E a \in Domain(api) : Refused(api, a)) /\ (\E a \in Domain(api) : ~Refused(api, a))
=============================================================================
