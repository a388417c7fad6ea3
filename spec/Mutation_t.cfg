SPECIFICATION Spec
CONSTANTS Len_ = 4 Lo = 0 Hi = 3 MaxSteps = 0
INVARIANTS Domain Untouched NumLaw
