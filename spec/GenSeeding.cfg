CONSTANTS
 L = 3
 MaxPop = 4
INIT Init
NEXT Next
