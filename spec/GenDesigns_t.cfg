CONSTANTS
 Coords = {0, 1, 3}
 MaxSize = 4
INIT Init
NEXT Next
