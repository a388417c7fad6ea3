SPECIFICATION Spec
CONSTANTS Fits <- ModelFits Lens = {1, 2, 3} Pens = {0, 1, 2}
INVARIANTS LexOrder KozaOrder FitnessFirst ShorterWins NoPenaltyNoBias
