SPECIFICATION Spec
CONSTANTS NIn = 1 NOut = 2 Layers = 2 PerLayer = 1 Arity = 2 Back = 1
INVARIANTS BuiltValid Feasible Acyclic PruneSound SweepSound
