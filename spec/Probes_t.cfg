SPECIFICATION Spec
CONSTANTS Vals <- ModelVals N = 3 Gens = 4 Modulo = 2
INVARIANTS BsfIsBest RowsOnSchedule RowsNeverWorsen
PROPERTIES NeverWorsens
