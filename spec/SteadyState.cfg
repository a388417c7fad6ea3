SPECIFICATION Spec
CONSTANTS MInit = {1,2,3} MCap = {2} MMax = {1,3} MM = {1,2} MaxFails = 2
INVARIANTS BirthsAreAccounted EachOnce NobodyLost Bounded BudgetExact
PROPERTY Terminates
