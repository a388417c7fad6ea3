INIT Init
NEXT Next
CONSTANTS MaxSubs = 3 Sizes = {1,2} TrialSet = {1,3} Selectors = {"random","cyclic","naive","tournament"} Forms = {"op","problem","grouped","chunked"} Inds = {2}
