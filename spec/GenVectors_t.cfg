INIT Init
NEXT Next
CONSTANTS NObj = 2 Vals = {0,1,2} Len_ = 4
