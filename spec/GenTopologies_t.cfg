INIT Init
NEXT Next
CONSTANTS N = 3 Gaps = {1, 2, 3, 4}
