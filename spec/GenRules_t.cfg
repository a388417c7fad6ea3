INIT Init
NEXT Next
CONSTANTS Vals = {0, 1, 2, 3} NRules = 3 Lo2 = {0, 1, 2}
