INIT Init
NEXT Next
CONSTANTS N = 5 P = 4
