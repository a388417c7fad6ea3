SPECIFICATION Spec
CONSTANTS Starts <- ModelStarts Ds <- ModelDs MaxOps = 5 NInd = 3
INVARIANTS Agree EveryIncAnnounced Unique Consecutive
PROPERTIES NeverRebranded
