SPECIFICATION Spec
CONSTANTS Len_ = 8 Members = 3
INVARIANTS SomethingReadable FitnessNeverByHand CloneIsUndecoded
