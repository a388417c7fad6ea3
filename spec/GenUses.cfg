INIT Init
NEXT Next
CONSTANTS N = 4 P = 3
