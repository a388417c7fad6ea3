SPECIFICATION Spec
CONSTANTS N = 6 MaxGen = 12
INVARIANTS InOrder LiveIsLive EvaluatedOnce ExactGenerations
PROPERTY Terminates
