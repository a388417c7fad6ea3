INIT Init
NEXT Next
CONSTANTS Vals <- QVals MaxLen = 5 Caps = {1,2,3}
