SPECIFICATION Spec
CONSTANTS Sizes = {0, 1, 2, 3} Bounds <- ModelBounds
INVARIANTS Own OneCallEach Within EveryValueReachable
