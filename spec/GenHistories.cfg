INIT Init
NEXT Next
CONSTANTS Vals <- QVals N = 2 L = 4
