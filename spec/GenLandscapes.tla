---------------------------- MODULE GenLandscapes ----------------------------
(* All wrapper stacks within bounds, with the points at which they are exact.  *)
EXTENDS LeapCommon, Json, IOUtils, SequencesExt
CONSTANTS Depth
VARIABLE d
L == INSTANCE Landscapes WITH Wrappers <- {}, MaxDepth <- 0, BaseBounds <- <<0, 0>>, Points <- {}, stack <- <<>>, pt <- <<>>
T(n) == IF n = 1 THEN { <<"t", <<a>>>> : a \in {-16, 0, 24} } ELSE IF n = 2 THEN { <<"t", t>> : t \in {<<16, -32>>, <<0, 8>>, <<-24, 40>>} } ELSE { <<"t", <<16, -8, 40>>>> }
M(n) == IF n = 1 THEN { <<"m", <<<<a>>>>>> : a \in {-1, 2} } ELSE IF n = 2 THEN { <<"m", m>> : m \in { <<<<0, -1>>, <<1, 0>>>>, <<<<1, 2>>, <<0, 1>>>>, <<<<2, -1>>, <<3, 1>>>> } } ELSE { <<"m", <<<<0, 1, 0>>, <<0, 0, -1>>, <<1, 0, 0>>>>>> }
S == { <<"s", -32, 32>>, <<"s", 0, 128>>, <<"s", 16, 48>> }
Stacks(n) == { s \in SeqsUpTo(T(n) \cup M(n) \cup S, Depth) : TRUE }
Grid(n) == IF n = 1 THEN { <<a>> : a \in {-48, -16, 0, 8, 32, 128} } ELSE IF n = 2 THEN { <<a, b>> : a \in {-32, 0, 16}, b \in {-16, 8, 48} } ELSE { <<16, -32, 0>>, <<0, 8, 48>>, <<-16, -16, 32>> }
Base == <<-64, 64>>
Dirs == {"inherit", "max", "min"}
Cases(n) == { [n |-> n, stack |-> s, points |-> SetToSeq({ x \in Grid(n) : L!AllExact(s, Base, x) })] : s \in Stacks(n) }
DirCases == { [n |-> 2, choices |-> c, base |-> b] : c \in SeqsUpTo(Dirs, Depth), b \in BOOLEAN }
Basins == { [R |-> r, D |-> dd, o |-> o, v |-> v] : r \in { <<<<1, 0>>, <<0, 1>>>>, <<<<0, -1>>, <<1, 0>>>>, <<<<1, 1>>, <<2, -1>>>> }, dd \in {<<2, 4>>, <<1, 3>>}, o \in {<<-1, -1>>, <<3, 2>>}, v \in {0, 7} }
Fams == { << a >> : a \in Basins } \cup { << a, b >> : a \in Basins, b \in { q \in Basins : q.v = 0 } }
Init == d = 0 /\ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Cases(1)) \o SetToSeq(Cases(2)) \o SetToSeq(Cases(3)) \o SetToSeq(DirCases) \o SetToSeq({ [fam |-> f] : f \in Fams }))
Next == UNCHANGED d
=============================================================================
