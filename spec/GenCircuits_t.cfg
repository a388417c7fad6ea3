INIT Init
NEXT Next
CONSTANTS Deep = TRUE
