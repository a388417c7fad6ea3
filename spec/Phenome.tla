------------------------------- MODULE Phenome -------------------------------
(* P40: the phenome of an individual over its life.  A genome is a number g, its  *)
(* decoding is D(g).  perm is the set of values a reader of the phenome may see:   *)
(* {} not decoded yet (reading decodes), {v} decoded or set by hand; after the     *)
(* genome is changed without a decode, LEAP promises no more than one of the old   *)
(* and the new value.                                                              *)
EXTENDS LeapCommon
D(g) == 10 * g + 1
Fit(p) == 7 * p
Readable(s) == IF s.perm = {} THEN {D(s.g)} ELSE s.perm
New(g) == [g |-> g, perm |-> {}, fit |-> None]
Mutated(s, g) == [s EXCEPT !.g = g, !.perm = IF s.perm = {} THEN {} ELSE s.perm \cup {D(g)}]
Decoded(s) == [s EXCEPT !.perm = {D(s.g)}]
Evaluated(s) == [Decoded(s) EXCEPT !.fit = Fit(D(s.g))]
ByHand(s, v) == [s EXCEPT !.perm = {v}]
Read(s, v) == [s EXCEPT !.perm = {v}]
------------------------------------------------------------------------------
(* Model: a family of individuals (each clone joins it); any member may be        *)
(* mutated, decoded, read, set, evaluated or cloned in any order.                  *)
CONSTANTS Len_, Members
VARIABLES fam, last, n
vars == <<fam, last, n>>
Init == fam = <<New(1)>> /\ last = <<"new", 0>> /\ n = 0
Step(k, s, what, v) == fam' = [fam EXCEPT ![k] = s] /\ last' = <<what, v>> /\ n' = n + 1
Next == n < Len_ /\ \E k \in 1..Len(fam) :
    \/ Step(k, Mutated(fam[k], (fam[k].g % 3) + 1), "mutate", 0)
    \/ Step(k, Decoded(fam[k]), "decode", D(fam[k].g))
    \/ Step(k, Evaluated(fam[k]), "eval", Fit(D(fam[k].g)))
    \/ Step(k, ByHand(fam[k], 500), "set", 500)
    \/ \E v \in Readable(fam[k]) : Step(k, Read(fam[k], v), "read", v)
    \/ Len(fam) < Members /\ fam' = Append(fam, New(fam[k].g)) /\ last' = <<"clone", k>> /\ n' = n + 1
Spec == Init /\ [][Next]_vars
SomethingReadable == \A k \in 1..Len(fam) : Readable(fam[k]) # {}
FitnessNeverByHand == \A k \in 1..Len(fam) : fam[k].fit # Fit(500)
CloneIsUndecoded == last[1] = "clone" => fam[Len(fam)].perm = {} /\ fam[Len(fam)].g = fam[last[2]].g /\ fam[Len(fam)].fit = None
=============================================================================
