INIT Init
NEXT Next
CONSTANTS MInit = {1,2,3} MMax = {0,1,2} MM = {1,2} MaxFails = 1
