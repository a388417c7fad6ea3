INIT Init
NEXT Next
CONSTANTS Depth = 3
