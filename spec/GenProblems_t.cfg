INIT Init
NEXT Next
CONSTANTS L = 10 TL = 5
