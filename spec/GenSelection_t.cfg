INIT Init
NEXT Next
CONSTANTS Vals <- TVals N = 4 K = 4
