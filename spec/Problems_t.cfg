SPECIFICATION Spec
CONSTANTS MaxLen = 8 MaxGen = 8 NProb = 3 Modulo = 2
INVARIANTS OneOptimum Deceptive Alternates Intervals
