SPECIFICATION Spec
CONSTANTS Outcomes <- QOut MaxLen = 5
INVARIANTS Contained LastOutcomeOnly ViableIffNumber Counted FailedLoses
