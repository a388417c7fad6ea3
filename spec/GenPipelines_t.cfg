CONSTANTS
 L = 4
 Pools = {0, 1, 2, 3, 4, 5, 6}
INIT Init
NEXT Next
