INIT Init
NEXT Next
CONSTANTS MaxN = 4
