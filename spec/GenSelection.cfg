INIT Init
NEXT Next
CONSTANTS Vals <- QVals N = 3 K = 3
