SPECIFICATION Spec
CONSTANTS Vals <- QVals Cap = 2 MaxArrivals = 5
INVARIANTS Bounded NoDuplicates
PROPERTIES BestNeverWorsens ViableNeverLostToFailed
