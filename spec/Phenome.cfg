SPECIFICATION Spec
CONSTANTS Len_ = 6 Members = 2
INVARIANTS SomethingReadable FitnessNeverByHand CloneIsUndecoded
