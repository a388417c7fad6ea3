SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
 MaxPop = 3
 Sols = {1, 2}
INVARIANTS SeedsOnce
PROPERTIES ReadOnlyUses
CHECK_DEADLOCK FALSE
