SPECIFICATION Spec
CONSTANTS Outcomes <- QOut MaxLen = 8
INVARIANTS Contained LastOutcomeOnly ViableIffNumber Counted FailedLoses
