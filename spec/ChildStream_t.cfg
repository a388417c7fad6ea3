SPECIFICATION Spec
CONSTANTS MaxUses = 6 MaxPulls = 5
INVARIANTS NeverTwice InOrder NothingLost FirstsNeverLost TakesPairs
