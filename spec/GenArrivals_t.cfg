INIT Init
NEXT Next
CONSTANTS Vals <- TVals MaxLen = 6 Caps = {1,2,3,4}
