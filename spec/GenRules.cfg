INIT Init
NEXT Next
CONSTANTS Vals = {0, 1, 2, 3} NRules = 2 Lo2 = {1, 2}
