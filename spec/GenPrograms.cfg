INIT Init
NEXT Next
CONSTANTS N = 4
OpNames = {"clone", "vary", "cross", "eval", "geval"}
