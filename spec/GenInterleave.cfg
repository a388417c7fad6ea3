INIT Init
NEXT Next
CONSTANTS N = 7 U = 2
