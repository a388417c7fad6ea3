SPECIFICATION Spec
CONSTANTS MaxBits = 8
INVARIANTS InRange Inverse GrayInverse GrayAdjacent Onto Ends PrefixAgrees
