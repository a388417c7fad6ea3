SPECIFICATION Spec
CONSTANTS Steps = 4 Used = {"mutation", "gaussian", "cgp", "stop", "grouped", "islands", "curves"}
INVARIANTS AsIfNever BothSides
