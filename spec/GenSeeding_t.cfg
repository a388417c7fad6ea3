CONSTANTS
 L = 4
 MaxPop = 4
INIT Init
NEXT Next
