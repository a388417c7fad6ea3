SPECIFICATION Spec
CONSTANTS MaxLen = 4 Toks = {1, 2}
INVARIANT NeverEmpty
PROPERTY OneSegment
