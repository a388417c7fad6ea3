INIT Init
NEXT Next
CONSTANTS N = 12 L = 3
