SPECIFICATION Spec
CONSTANTS NIn = 2 NOut = 1 Layers = 3 PerLayer = 1 Arity = 2 Back = 2
INVARIANTS BuiltValid Feasible Acyclic PruneSound SweepSound
