SPECIFICATION Spec
CONSTANTS Sizes = {0, 1, 2, 3, 4} Bounds <- ModelBounds
INVARIANTS Own OneCallEach Within EveryValueReachable
