CONSTANTS
 L = 3
 Pools = {0, 1, 2, 3, 4}
INIT Init
NEXT Next
