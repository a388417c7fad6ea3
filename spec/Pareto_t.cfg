SPECIFICATION Spec
CONSTANTS NObj = 2 Vals = {0,1,2} Cap = 3 MaxArrivals = 5
INVARIANTS RanksCharacterised BoundedPop FrontsAreAntichains StrictOrder
PROPERTY NonDominatedKept
