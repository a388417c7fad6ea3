CONSTANTS
 MaxWidth = 3
 MaxLayers = 4
 MaxEvents = 4
 Keys = {1, 2}
INIT Init
NEXT Next
