SPECIFICATION Spec
CONSTANTS
 Points = {0, 1, 3, 7}
 Q = 6
 MaxTests = 2
INVARIANTS LinearIsZero ConvexBelow ConcaveAbove EndsAreZero Exclusive
CHECK_DEADLOCK FALSE
