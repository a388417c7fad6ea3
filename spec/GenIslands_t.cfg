INIT Init
NEXT Next
CONSTANTS Ns = {1,2,3,4,5} Gens = {0,1,2,3,5} PopSizes = {1,2,3}
