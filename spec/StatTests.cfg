SPECIFICATION Spec
CONSTANTS
 Keys = 3
 MaxSamples = 24
INVARIANTS NonNegative ZeroIffFlat Relabel UniformIsChi Stricter MoreDfMoreRoom
CHECK_DEADLOCK FALSE
