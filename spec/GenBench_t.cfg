INIT Init
NEXT Next
CONSTANTS B = 6
 MaxDim = 3
 Some = 1
