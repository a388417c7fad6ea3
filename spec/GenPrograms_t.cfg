INIT Init
NEXT Next
CONSTANTS N = 5
OpNames = {"clone", "vary", "cross", "eval", "geval"}
