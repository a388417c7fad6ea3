SPECIFICATION Spec
CONSTANTS Len_ = 3 Lo = 0 Hi = 2 MaxSteps = 0
INVARIANTS Domain Untouched NumLaw
