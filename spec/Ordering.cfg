INIT Init
NEXT Next
CONSTANT Dom <- ModelDom
INVARIANTS Irreflexive Asymmetric Transitive Trichotomy NaNWorst OpsCoherent BestExists SortExists
