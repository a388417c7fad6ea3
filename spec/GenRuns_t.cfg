INIT Init
NEXT Next
CONSTANTS Vals <- QVals Pop = 3 Pool = 2 Gens = 2
