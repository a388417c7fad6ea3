SPECIFICATION Spec
CONSTANTS
 Keys = 4
 MaxSamples = 20
INVARIANTS NonNegative ZeroIffFlat Relabel UniformIsChi Stricter MoreDfMoreRoom
CHECK_DEADLOCK FALSE
