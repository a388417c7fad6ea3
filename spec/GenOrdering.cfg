INIT Init
NEXT Next
CONSTANTS Dom <- QDom  N = 4
