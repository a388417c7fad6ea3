INIT Init
NEXT Next
CONSTANTS Vals <- QVals Pop = 2 Pool = 2 Gens = 2
