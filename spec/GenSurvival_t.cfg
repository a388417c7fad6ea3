INIT Init
NEXT Next
CONSTANTS Vals <- TVals N = 3
