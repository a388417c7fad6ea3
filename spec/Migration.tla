------------------------------ MODULE Migration ------------------------------
(* P12: island migration.  Islands 0..N-1 are processed in index order in every   *)
(* generation; processing = take in what has arrived, then maybe emit one.         *)
EXTENDS LeapCommon

\* does an emigrant sent by src in generation g arrive at island d at its processing in generation h (first processing of d after the emission)?
Arrives(src, g, d, h) == h = IF d > src THEN g ELSE g + 1
\* an island without neighbours emits nothing
Emits(gen, gap, neighbours) == (gen % gap) = 0 /\ neighbours # {}
\* an immigrant replaces a contestant when it is at least as good
Wins(max, imm, con) == ~Worse(max, imm, con)
----------------------------------------------------------------------------
CONSTANTS N, Edges, Gap, MaxGen, Vals, Size
MEdges == {<<0, 1>>, <<1, 2>>, <<2, 0>>, <<0, 2>>}
SEdges == {<<0, 1>>, <<1, 2>>, <<0, 2>>, <<1, 1>>}     \* island 2 is a sink
Out(k) == { e[2] : e \in { x \in Edges : x[1] = k } }
VARIABLES pops, mail, gen, cur, sent, got
\* pops[i+1]: sequence of fitness values; mail: set of [tag, src, g, dst, v]; sent/got: counters
vars == <<pops, mail, gen, cur, sent, got>>
Init == /\ pops \in [1..N -> [1..Size -> Vals]] /\ mail = {} /\ gen = 0 /\ cur = 0 /\ sent = 0 /\ got = 0
Mine == { m \in mail : m.dst = cur }
TakeIn == /\ gen < MaxGen /\ Mine # {}
          /\ LET m == CHOOSE x \in Mine : \A y \in Mine : x.tag <= y.tag IN
             \E s \in 1..Size :
               /\ pops' = [pops EXCEPT ![cur + 1] = IF Wins(TRUE, m.v, pops[cur + 1][s]) THEN [pops[cur + 1] EXCEPT ![s] = m.v] ELSE pops[cur + 1]]
               /\ mail' = mail \ {m} /\ got' = got + 1
          /\ UNCHANGED <<gen, cur, sent>>
Advance == IF cur = N - 1 THEN cur' = 0 /\ gen' = gen + 1 ELSE cur' = cur + 1 /\ gen' = gen
Emit == /\ gen < MaxGen /\ Mine = {} /\ Emits(gen, Gap, Out(cur))
        /\ \E s \in 1..Size, e \in Edges : e[1] = cur
              /\ mail' = mail \cup {[tag |-> sent + 1, src |-> cur, g |-> gen, dst |-> e[2], v |-> pops[cur + 1][s]]}
        /\ sent' = sent + 1 /\ Advance /\ UNCHANGED <<pops, got>>
NoEmit == gen < MaxGen /\ Mine = {} /\ ~Emits(gen, Gap, Out(cur)) /\ Advance /\ UNCHANGED <<pops, mail, sent, got>>
Next == TakeIn \/ Emit \/ NoEmit
Spec == Init /\ [][Next]_vars
SizesConstant == \A k \in 1..N : Len(pops[k]) = Size
Conservation == sent = got + Cardinality(mail)
\* mail is never older than one round: it is taken in exactly when Arrives says
OnTime == \A m \in mail : gen < m.g + 1 \/ (gen = m.g + 1 /\ (cur <= m.dst /\ m.dst <= m.src)) \/ (gen = MaxGen)
TakenOnTime == [][ \A m \in mail : m \notin mail' => Arrives(m.src, m.g, cur, gen) ]_vars
Sched == sent = Cardinality({ p \in (0..MaxGen) \X (0..(N - 1)) : Emits(p[1], Gap, Out(p[2])) /\ (p[1] < gen \/ (p[1] = gen /\ p[2] < cur)) })
IslandsNeverWorsen == [][\A k \in 1..N : SetMax(Elems(pops'[k])) >= SetMax(Elems(pops[k]))]_vars
=============================================================================
