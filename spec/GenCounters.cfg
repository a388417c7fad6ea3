INIT Init
NEXT Next
CONSTANTS L = 4 PL = 2 NInd = 3
