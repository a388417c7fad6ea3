------------------------------ MODULE Segments ------------------------------
(* P11: segmented genomes.  A genome is a sequence of segments (tokens).         *)
EXTENDS LeapCommon

InsertAt(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))     \* p in 0..Len(s)
DropAt(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))

AddResults(s, x, append) == IF append THEN { Append(s, x) } ELSE { InsertAt(s, p, x) : p \in 0..Len(s) }
CopyResults(s, append) == UNION { AddResults(s, s[j], append) : j \in 1..Len(s) }
RemoveResults(s) == IF Len(s) <= 1 THEN {s} ELSE { DropAt(s, p) : p \in 1..Len(s) }
----------------------------------------------------------------------------
CONSTANTS MaxLen, Toks
VARIABLES s, born
vars == <<s, born>>
Init == s \in SeqsUpTo(Toks, 2) \ {<<>>} /\ born = 0
Add == Len(s) < MaxLen /\ born' = born + 1 /\ \E a \in BOOLEAN : s' \in AddResults(s, 100 + born, a)
Copy == Len(s) < MaxLen /\ born < 3 /\ UNCHANGED born /\ \E a \in BOOLEAN : s' \in CopyResults(s, a)
Remove == UNCHANGED born /\ s' \in RemoveResults(s)
Next == born < 3 /\ (Add \/ Copy \/ Remove)
Spec == Init /\ [][Next]_vars
NeverEmpty == s # <<>>
\* each step changes the length by at most one and keeps all other segments in order
SubSeqOf(x, y) == \E J \in SUBSET (1..Len(y)) : Cardinality(J) = Len(x) /\ \A k \in 1..Len(x) : \E j \in J : y[j] = x[k] /\ Cardinality({ m \in J : m <= j }) = k
OneSegment == [][/\ Abs(Len(s') - Len(s)) <= 1
                 /\ Len(s') > Len(s) => SubSeqOf(s, s')
                 /\ Len(s') < Len(s) => SubSeqOf(s', s)]_vars
=============================================================================
