INIT Init
NEXT Next
CONSTANTS Vals <- ModelVals MaxPop = 3 MaxK = 3 MaxN = 1 U = 2
INVARIANTS WinLaw WinnerExists
