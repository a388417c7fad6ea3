INIT Init
NEXT Next
CONSTANTS N = 4 MaxLen = 4
