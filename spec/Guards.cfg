SPECIFICATION Spec
CONSTANTS Steps = 3 Used = {"mutation", "stop", "grouped"}
INVARIANTS AsIfNever BothSides
