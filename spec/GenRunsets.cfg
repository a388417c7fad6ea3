CONSTANTS
 Times = {0, 2, 5}
 Vals = {1, 3}
 MaxRuns = 2
INIT Init
NEXT Next
