INIT Init
NEXT Next
CONSTANTS N = 8 U = 3
