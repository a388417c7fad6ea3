INIT Init
NEXT Next
CONSTANTS Vals <- ModelVals MaxPop = 4 MaxK = 4 MaxN = 1 U = 2
INVARIANTS WinLaw WinnerExists
