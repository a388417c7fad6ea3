INIT Init
NEXT Next
CONSTANTS Outcomes <- QOut MaxLen = 6
