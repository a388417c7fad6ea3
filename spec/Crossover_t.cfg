INIT Init
NEXT Next
CONSTANTS MaxLen = 7 MaxPts = 6
INVARIANTS Law Distinct Candidate
