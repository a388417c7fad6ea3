INIT Init
NEXT Next
CONSTANTS L = 5 PL = 3 NInd = 3
