CONSTANTS
 Coords = {0, 1, 3}
 MaxSize = 3
INIT Init
NEXT Next
