CONSTANTS
 MaxWidth = 4
 MaxLayers = 4
 MaxEvents = 4
 Keys = {1, 2, 3}
INIT Init
NEXT Next
