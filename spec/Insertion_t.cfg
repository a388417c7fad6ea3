SPECIFICATION Spec
CONSTANTS Vals <- QVals Cap = 3 MaxArrivals = 7
INVARIANTS Bounded NoDuplicates
PROPERTIES BestNeverWorsens ViableNeverLostToFailed
