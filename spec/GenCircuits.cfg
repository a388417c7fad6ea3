INIT Init
NEXT Next
CONSTANTS Deep = FALSE
