INIT InitSus
NEXT Next
CONSTANTS Vals <- ModelVals MaxPop = 3 MaxK = 3 MaxN = 6 U = 7
INVARIANTS SusLaw
