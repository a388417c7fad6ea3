CONSTANTS
 Total = 28
 MaxKeys = 3
INIT Init
NEXT Next
