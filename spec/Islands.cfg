SPECIFICATION Spec
CONSTANTS N = 3 MaxGen = 4
INVARIANTS InOrder LiveIsLive EvaluatedOnce ExactGenerations
PROPERTY Terminates
