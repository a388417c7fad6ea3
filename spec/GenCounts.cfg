CONSTANTS
 Total = 16
 MaxKeys = 3
INIT Init
NEXT Next
