SPECIFICATION Spec
CONSTANTS Fits <- ModelFits Lens = {0, 1, 2, 3, 4} Pens = {0, 1, 2, 3, 5}
INVARIANTS LexOrder KozaOrder FitnessFirst ShorterWins NoPenaltyNoBias
