INIT Init
NEXT Next
CONSTANTS Ns = {1,2,3} Gens = {0,1,2,3} PopSizes = {1,2}
