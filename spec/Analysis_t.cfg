SPECIFICATION Spec
CONSTANTS
 Exps = {1, 2}
 Jobs = {1, 2}
 Times = {0, 1, 3}
 Vals = {0, 5}
 MaxRows = 4
INVARIANTS OrderIrrelevant Linear FirstRowWeightless AucBounded MeanBetween Partition
CHECK_DEADLOCK FALSE
