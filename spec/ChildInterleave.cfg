SPECIFICATION Spec
CONSTANT MaxUses = 3
CONSTANT MaxPulls = 5
INVARIANT NeverTwice
INVARIANT RealChildren
INVARIANT NothingLost
INVARIANT OwnPairs
CHECK_DEADLOCK FALSE
