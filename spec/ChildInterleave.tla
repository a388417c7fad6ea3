--------------------------- MODULE ChildInterleave ---------------------------
(* P09: several uses of one crossover operator, consumed alternately.  A use       *)
(* takes parents in pairs and owns the second child of its latest pair; with       *)
(* persistence that child waits in the operator, where a use which is only just     *)
(* starting may take it over, and its owner then goes on with its next pair.       *)
EXTENDS LeapCommon

\* state: wait = children waiting in the operator, own[u] = second child use u still owes (0: none), fresh = uses not yet past the waiting children
Begin(st, persist) == [st EXCEPT !.own = Append(st.own, 0), !.fresh = IF persist THEN st.fresh \cup {Len(st.own) + 1} ELSE st.fresh]
TakePair(st, u, persist) ==
    [out |-> st.taken + 1,
     st |-> [st EXCEPT !.taken = st.taken + 2, !.own[u] = st.taken + 2, !.fresh = st.fresh \ {u},
                       !.wait = IF persist THEN Append(st.wait, st.taken + 2) ELSE st.wait]]
Pull(st, u, persist) ==
    IF u \in st.fresh /\ st.wait # <<>> THEN [out |-> Head(st.wait), st |-> [st EXCEPT !.wait = Tail(st.wait)]]
    ELSE IF st.own[u] # 0 /\ (~persist \/ st.own[u] \in Elems(st.wait))
         THEN [out |-> st.own[u], st |-> [st EXCEPT !.own[u] = 0, !.wait = SelectSeq(st.wait, LAMBDA x : x # st.own[u])]]
         ELSE TakePair(st, u, persist)
Start == [wait |-> <<>>, own |-> <<>>, fresh |-> {}, taken |-> 0]
----------------------------------------------------------------------------
CONSTANTS MaxUses, MaxPulls
VARIABLES persist, st, out, by
vars == <<persist, st, out, by>>
Init == persist \in BOOLEAN /\ st = Start /\ out = <<>> /\ by = <<>>
Use == Len(st.own) < MaxUses /\ st' = Begin(st, persist) /\ UNCHANGED <<persist, out, by>>
Take(u) == LET r == Pull(st, u, persist) IN Len(out) < MaxPulls /\ st' = r.st /\ out' = Append(out, r.out) /\ by' = Append(by, u) /\ UNCHANGED persist
Next == Use \/ \E u \in 1..Len(st.own) : Take(u)
Spec == Init /\ [][Next]_vars
NeverTwice == IsInj(out)
RealChildren == \A k \in 1..Len(out) : out[k] \in 1..st.taken
\* with persistence every child is delivered or waiting; without, delivered or owed by the use that produced it
NothingLost == IF persist THEN \A x \in 1..st.taken : x \in Elems(out) \/ x \in Elems(st.wait)
               ELSE \A x \in 1..st.taken : x \in Elems(out) \/ x \in Elems(st.own)
\* without persistence uses do not see each other's children
OwnPairs == ~persist => \A k, m \in 1..Len(out) : (out[k] % 2 = 1 /\ out[m] = out[k] + 1) => by[k] = by[m] /\ k < m
=============================================================================
