INIT Init
NEXT Next
CONSTANTS Vals = {0, 1, 2, 3, 5} N = 4 MaxPts = 7
