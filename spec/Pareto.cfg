SPECIFICATION Spec
CONSTANTS NObj = 2 Vals = {0,1} Cap = 3 MaxArrivals = 4
INVARIANTS RanksCharacterised BoundedPop FrontsAreAntichains StrictOrder
PROPERTY NonDominatedKept
