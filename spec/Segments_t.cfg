SPECIFICATION Spec
CONSTANTS MaxLen = 5 Toks = {1, 2}
INVARIANT NeverEmpty
PROPERTY OneSegment
