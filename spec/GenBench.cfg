INIT Init
NEXT Next
CONSTANTS B = 6
 MaxDim = 2
 Some = 4
