INIT Init
NEXT Next
CONSTANTS N = 3 MaxLen = 3
