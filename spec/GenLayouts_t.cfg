INIT Init
NEXT Next
CONSTANTS MaxSegs = 4 MaxLen = 8 MaxTotal = 8
