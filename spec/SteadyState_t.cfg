SPECIFICATION Spec
CONSTANTS MInit = {1,2,3} MCap = {1,3} MMax = {0,1,4} MM = {1,2} MaxFails = 2
INVARIANTS BirthsAreAccounted EachOnce NobodyLost Bounded BudgetExact
PROPERTY Terminates
