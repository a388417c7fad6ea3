SPECIFICATION Spec
CONSTANTS N = 3 Edges <- MEdges Gap = 1 MaxGen = 2 Vals = {0, 1} Size = 1
INVARIANTS SizesConstant Conservation OnTime Sched
PROPERTIES TakenOnTime IslandsNeverWorsen
