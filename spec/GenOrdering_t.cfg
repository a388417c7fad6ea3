INIT Init
NEXT Next
CONSTANTS Dom <- TDom  N = 5
