SPECIFICATION Spec
CONSTANTS
 MaxStages = 3
 MaxPool = 5
 Kinds = {"list", "iter", "curry"}
 OpKinds <- AllOpKinds
INVARIANTS Lazy ExactDemand NoWaste AtMostOneAhead RefusedIffMiswired AcceptedFits
CHECK_DEADLOCK FALSE
