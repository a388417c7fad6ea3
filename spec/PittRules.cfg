SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2} NIn = 1 NRules = 2
INVARIANTS SomethingFires MatchIsZero FullMatchFirst PriorityDecides BestMatch
