SPECIFICATION Spec
CONSTANTS N = 3 Edges <- MEdges Gap = 2 MaxGen = 4 Vals = {0, 1} Size = 2
INVARIANTS SizesConstant Conservation OnTime Sched
PROPERTIES TakenOnTime IslandsNeverWorsen
