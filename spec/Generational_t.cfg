SPECIFICATION Spec
CONSTANTS Vals <- MVals PopSize = 3 PoolSize = 2 MaxGen = 4 StartGen = 1 K = 2
INVARIANTS SizeIsPool NeverTooLong BestAtLeastInitial EvalsAccounted
PROPERTY BestNeverWorsens
