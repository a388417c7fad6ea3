SPECIFICATION Spec
CONSTANTS
 MaxStages = 4
 MaxPool = 7
 Kinds = {"list", "iter", "curry"}
 OpKinds <- AllOpKinds
INVARIANTS Lazy ExactDemand NoWaste AtMostOneAhead RefusedIffMiswired AcceptedFits
CHECK_DEADLOCK FALSE
