SPECIFICATION Spec
CONSTANTS Starts <- ModelStarts Ds <- ModelDs MaxOps = 7 NInd = 3
INVARIANTS Agree EveryIncAnnounced Unique Consecutive
PROPERTIES NeverRebranded
