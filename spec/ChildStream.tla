----------------------------- MODULE ChildStream -----------------------------
(* P09: a crossover operator as a stream transformer with one-child memory.      *)
(* Individuals are numbered in the order the operator takes them from its         *)
(* sources; a use is one application of the operator to a new source.             *)
EXTENDS LeapCommon

\* state: [pend |-> child kept from an earlier pull (0 = none), open |-> this use produced pend (or carried it), taken |-> individuals taken]
\* a pull delivers the pending child of this use, or takes the next two and delivers the first
StartUse(st, persist) ==
    IF persist THEN [st EXCEPT !.fresh = FALSE] ELSE [st EXCEPT !.pend = 0, !.fresh = FALSE]
Deliver(st) ==
    IF st.pend # 0 THEN [out |-> st.pend, st |-> [st EXCEPT !.pend = 0]]
    ELSE [out |-> st.taken + 1, st |-> [st EXCEPT !.pend = st.taken + 2, !.taken = st.taken + 2]]
Start == [pend |-> 0, taken |-> 0, fresh |-> TRUE]
Partner(x) == IF x % 2 = 1 THEN x + 1 ELSE x - 1

\* Effect of recombination on the two members of a pair
Recombined(p, q, p2, q2) ==
    /\ p2.fit = None /\ q2.fit = None
    /\ p2.par = p.par \cup q.par /\ q2.par = p.par \cup q.par
    /\ p2.uu = p.uu /\ q2.uu = q.uu
PassedThrough(p, q, p2, q2) == p2 = p /\ q2 = q
----------------------------------------------------------------------------
CONSTANTS MaxUses, MaxPulls
VARIABLES persist, st, uses, pulls, delivered
vars == <<persist, st, uses, pulls, delivered>>
Init == persist \in BOOLEAN /\ st = Start /\ uses = 0 /\ pulls = 0 /\ delivered = <<>>
Use == uses < MaxUses /\ uses' = uses + 1 /\ pulls' = 0 /\ st' = StartUse(st, persist) /\ UNCHANGED <<persist, delivered>>
Pull == uses > 0 /\ pulls < MaxPulls /\ LET r == Deliver(st) IN
          st' = r.st /\ delivered' = Append(delivered, r.out) /\ pulls' = pulls + 1 /\ UNCHANGED <<persist, uses>>
Next == Use \/ Pull
Spec == Init /\ [][Next]_vars
NeverTwice == IsInj(delivered)
InOrder == \A p, q \in 1..Len(delivered) : p < q => delivered[p] < delivered[q]
\* with persistence nothing is ever skipped
NothingLost == persist => \A x \in 1..st.taken : x \in Elems(delivered) \/ x = st.pend
FirstsNeverLost == \A x \in 1..st.taken : x % 2 = 1 => x \in Elems(delivered)
TakesPairs == st.taken % 2 = 0
=============================================================================
