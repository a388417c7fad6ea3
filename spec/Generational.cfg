SPECIFICATION Spec
CONSTANTS Vals <- MVals PopSize = 2 PoolSize = 2 MaxGen = 3 StartGen = 0 K = 1
INVARIANTS SizeIsPool NeverTooLong BestAtLeastInitial EvalsAccounted
PROPERTY BestNeverWorsens
