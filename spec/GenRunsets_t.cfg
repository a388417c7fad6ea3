CONSTANTS
 Times = {0, 2, 5}
 Vals = {0, 2, 3}
 MaxRuns = 2
INIT Init
NEXT Next
