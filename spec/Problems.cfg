SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxGen = 5 NProb = 3 Modulo = 2
INVARIANTS OneOptimum Deceptive Alternates Intervals
