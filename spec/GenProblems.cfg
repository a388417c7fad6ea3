INIT Init
NEXT Next
CONSTANTS L = 7 TL = 4
