SPECIFICATION Spec
CONSTANTS MaxBits = 6
INVARIANTS InRange Inverse GrayInverse GrayAdjacent Onto Ends PrefixAgrees
