INIT Init
NEXT Next
CONSTANTS MaxSegs = 3 MaxLen = 6 MaxTotal = 6
