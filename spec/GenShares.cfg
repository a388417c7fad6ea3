INIT Init
NEXT Next
CONSTANTS Vals = {0, 1, 2, 5} N = 3 MaxPts = 5
