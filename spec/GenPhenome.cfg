INIT Init
NEXT Next
CONSTANT L = 4
