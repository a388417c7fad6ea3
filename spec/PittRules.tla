------------------------------ MODULE PittRules ------------------------------
(* P26: Pitt-approach rule systems.  A rule is [c |-> sequence of <<low, high>>, a |-> actions]. *)
EXTENDS LeapCommon
Diff(c, x) == IF c[1] > c[2] THEN 0 ELSE IF x >= c[1] /\ x <= c[2] THEN 0 ELSE Min2(Abs(c[1] - x), Abs(c[2] - x))
Score(r, in) == SumSeq([ k \in 1..Len(in) |-> Diff(r.c[k], in[k]) * Diff(r.c[k], in[k]) ])
Matches(r, in) == \A k \in 1..Len(in) : r.c[k][1] > r.c[k][2] \/ (r.c[k][1] <= in[k] /\ in[k] <= r.c[k][2])
\* indices of the rules that may fire
MayFire(rules, in) ==
    LET full == { j \in 1..Len(rules) : Matches(rules[j], in) } IN
    IF full # {} THEN {SetMin(full)}
    ELSE { j \in 1..Len(rules) : \A k \in 1..Len(rules) : Score(rules[j], in) <= Score(rules[k], in) }
\* decoding of one rule segment: nin pairs of condition genes, then the action genes
Rule(seg, nin) == [c |-> [ k \in 1..nin |-> <<seg[2 * k - 1], seg[2 * k]>> ], a |-> SubSeq(seg, 2 * nin + 1, Len(seg))]
Rules(genome, nin) == [ s \in 1..Len(genome) |-> Rule(genome[s], nin) ]
------------------------------------------------------------------------------
CONSTANTS Vals, NIn, NRules
VARIABLES rules, in, fired
vars == <<rules, in, fired>>
Conds == { <<a, b>> : a \in Vals, b \in Vals }
Init == rules = <<>> /\ in \in [1..NIn -> Vals] /\ fired = 0
AddRule == /\ Len(rules) < NRules /\ fired = 0
           /\ \E c \in [1..NIn -> Conds] : rules' = Append(rules, [c |-> c, a |-> <<Len(rules)>>])
           /\ UNCHANGED <<in, fired>>
Fire == Len(rules) > 0 /\ fired = 0 /\ \E j \in MayFire(rules, in) : fired' = j /\ UNCHANGED <<rules, in>>
Next == AddRule \/ Fire
Spec == Init /\ [][Next]_vars
SomethingFires == Len(rules) > 0 => MayFire(rules, in) # {}
MatchIsZero == \A j \in 1..Len(rules) : Matches(rules[j], in) <=> Score(rules[j], in) = 0
FullMatchFirst == fired # 0 => (Matches(rules[fired], in) \/ \A j \in 1..Len(rules) : ~Matches(rules[j], in))
PriorityDecides == fired # 0 /\ Matches(rules[fired], in) => \A j \in 1..(fired - 1) : ~Matches(rules[j], in)
BestMatch == fired # 0 => \A j \in 1..Len(rules) : Score(rules[fired], in) <= Score(rules[j], in)
=============================================================================
