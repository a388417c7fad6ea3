INIT Init
NEXT Next
CONSTANTS MaxLen = 5 MaxPts = 4
INVARIANTS Law Distinct Candidate
