----------------------------- MODULE GenProblems -----------------------------
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS L, TL
VARIABLE d
Strings(n) == SeqsUpTo({0, 1}, n) \ {<<>>}
Bits == { [what |-> "bits", s |-> s, t |-> [ k \in 1..Len(s) |-> 1 ], target |-> FALSE] : s \in Strings(L) }
        \cup UNION { { [what |-> "bits", s |-> s, t |-> t, target |-> TRUE] : t \in [1..Len(s) -> {0, 1}] } : s \in Strings(TL) }
Alt == { [what |-> "alt", np |-> n, modulo |-> m, gens |-> g] : n \in 1..3, m \in 1..4, g \in { [ k \in 1..13 |-> k - 1 ], <<7, 2, 0, 12, 3, 3, 30, 1>> } }
\* truth tables: the program's and the target's outputs per row (one output), all of them for two inputs
TT == { [what |-> "tt", nin |-> n, prog |-> p, want |-> w] : n \in {1}, p \in [1..2 -> {0, 1}], w \in [1..2 -> {0, 1}] }
      \cup { [what |-> "tt", nin |-> n, prog |-> p, want |-> w] : n \in {2}, p \in [1..4 -> {0, 1}], w \in [1..4 -> {0, 1}] }
Avg == { [what |-> "avg", n |-> n, phs |-> p] : n \in 1..4, p \in SeqsUpTo({1, 2}, 3) }
Ext == { [what |-> "ext", phs |-> p, mode |-> m] : p \in { <<>>, <<<<3>>>>, <<<<1, 2>>, <<5, 5>>>>, <<<<4>>, <<2>>, <<9>>>>, <<<<1>>, <<1>>>> }, m \in {"ok", "exit1", "exit3-after-output", "few", "many", "junk"} }
Envs == { [what |-> "env", done |-> dn, stop |-> st, limit |-> l] : dn \in { x \in SeqsUpTo([1..3 -> BOOLEAN], 2) : x # <<>> }, st \in BOOLEAN, l \in 1..3 }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Bits) \o SetToSeq(Alt) \o SetToSeq(TT) \o SetToSeq(Avg) \o SetToSeq(Ext) \o SetToSeq(Envs))
Next == UNCHANGED d
=============================================================================
