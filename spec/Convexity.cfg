SPECIFICATION Spec
CONSTANTS
 Points = {0, 1, 3}
 Q = 4
 MaxTests = 2
INVARIANTS LinearIsZero ConvexBelow ConcaveAbove EndsAreZero Exclusive
CHECK_DEADLOCK FALSE
