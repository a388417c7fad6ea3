---------------------------- MODULE TracePittRules ----------------------------
(* Action genes are recorded times 10; an action is the gene rounded to the nearest integer. *)
EXTENDS LeapCommon, TraceBase
P == INSTANCE PittRules WITH Vals <- {}, NIn <- 1, NRules <- 1, rules <- <<>>, in <- <<>>, fired <- 0
VARIABLE i
Rnd(a) == (a + 1000 * 10 + 5) \div 10 - 1000
Act(r) == [ k \in 1..Len(r.a) |-> Rnd(r.a[k]) ]
Verdict(e) ==
    IF e.exc # "" THEN {"raised"} ELSE
    CASE e.kind = "fire" ->      \* got[k]: the actions observed for input k (a set, as sequence)
            LET rules == P!Rules(e.genome, e.nin) IN
            C("wrong-rule", \A k \in 1..Len(e.ins) : \A q \in 1..Len(e.got[k]) : \E j \in P!MayFire(rules, e.ins[k]) : Act(rules[j]) = e.got[k][q])
            \cup C("never-fires", e.many => \A k \in 1..Len(e.ins) : \A j \in P!MayFire(rules, e.ins[k]) : Act(rules[j]) \in Elems(e.got[k]))
            \cup C("genome-changed", e.same)
      [] e.kind = "decode" -> C("rules", e.rules = P!Rules(e.genome, e.nin)) \cup C("genome-changed", e.same)
      [] e.kind = "init" ->     \* genes observed at each locus over many rules: low/high extremes times 100, bounds times 100
            C("rule-count", e.shape) \cup C("condition-range", \A l \in 1..Len(e.lo) : e.lo[l] <= e.min[l] /\ e.max[l] <= e.hi[l])
            \cup C("bounds", e.blo = e.lo /\ e.bhi = e.hi)
            \cup C("condition-spread", \A l \in 1..(2 * e.nin) : (e.max[l] - e.min[l]) * 2 > e.hi[l] - e.lo[l])
            \cup C("actions", Elems(e.actions) = 0..(e.n - 1)) \cup C("action-bounds", Elems(e.abound) = {<<0, e.n - 1>>}) \cup C("shared", e.indep)
      [] e.kind = "mutate" ->     \* stand-in mutators: conditions + 100, actions + 1000
            C("mutated", e.out = [ s \in 1..Len(e.genome) |-> [ g \in 1..Len(e.genome[s]) |-> e.genome[s][g] + (IF g <= 2 * e.nin THEN 100 ELSE 1000) ] ])
            \cup C("fitness-kept", e.nofit) \cup C("handed-on-others", e.same)
            \cup C("mutator-calls", e.ccalls = [ s \in 1..Len(e.genome) |-> SubSeq(e.genome[s], 1, 2 * e.nin) ] /\ e.acalls = [ s \in 1..Len(e.genome) |-> SubSeq(e.genome[s], 2 * e.nin + 1, Len(e.genome[s])) ])
      [] e.kind = "dims" -> C("dims", e.got = e.want)
      [] e.kind = "plot" ->     \* boxes of the best individual's rules at the last due generation
            LET box(r) == LET x == IF r.c[e.dx][1] > r.c[e.dx][2] THEN e.lim[1] ELSE r.c[e.dx]
                              y == IF r.c[e.dy][1] > r.c[e.dy][2] THEN e.lim[2] ELSE r.c[e.dy]
                          IN <<x[1], y[1], x[2] - x[1], y[2] - y[1]>> IN
            C("handed-on-others", e.same)
            \cup C("boxes", e.boxes = IF e.due = 0 THEN <<>> ELSE LET rs == P!Rules(e.genomes[e.due], e.nin) IN [ j \in 1..Len(rs) |-> box(rs[j]) ])
            \cup C("box-colours", e.due = 0 \/ LET rs == P!Rules(e.genomes[e.due], e.nin) IN e.blues = [ j \in 1..Len(rs) |-> Act(rs[j])[1] = 0 ] /\ e.reds = [ j \in 1..Len(rs) |-> Act(rs[j])[1] # 0 ])
      [] OTHER -> {"unknown-kind"}
Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Report(Trace[i], Verdict(Trace[i])) /\ Done(i)
        /\ i' = i + 1
=============================================================================
