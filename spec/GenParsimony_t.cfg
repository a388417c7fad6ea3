INIT Init
NEXT Next
CONSTANTS Lens = {1, 2, 4} N = 3
