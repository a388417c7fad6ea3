SPECIFICATION Spec
CONSTANTS
 MaxEvals = 7
 Genomes = {1, 2, 3}
INVARIANTS Counted Chain Faithful Bounded ContextOnly
PROPERTIES Grows Ends
CHECK_DEADLOCK FALSE
