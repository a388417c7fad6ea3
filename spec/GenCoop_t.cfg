INIT Init
NEXT Next
CONSTANTS MaxSubs = 4 Sizes = {1,3} TrialSet = {1,2,5} Selectors = {"random","cyclic","naive","tournament"} Forms = {"op","problem","grouped","chunked"} Inds = {1,3}
