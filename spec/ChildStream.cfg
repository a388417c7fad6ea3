SPECIFICATION Spec
CONSTANTS MaxUses = 4 MaxPulls = 4
INVARIANTS NeverTwice InOrder NothingLost FirstsNeverLost TakesPairs
