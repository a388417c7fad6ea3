INIT InitSus
NEXT Next
CONSTANTS Vals <- ModelVals MaxPop = 3 MaxK = 3 MaxN = 12 U = 13
INVARIANTS SusLaw
