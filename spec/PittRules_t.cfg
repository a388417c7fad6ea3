SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2, 3} NIn = 1 NRules = 3
INVARIANTS SomethingFires MatchIsZero FullMatchFirst PriorityDecides BestMatch
