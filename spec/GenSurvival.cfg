INIT Init
NEXT Next
CONSTANTS Vals <- QVals N = 3
