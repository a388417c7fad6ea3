INIT Init
NEXT Next
CONSTANTS N = 4 L = 2
