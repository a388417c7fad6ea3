SPECIFICATION Spec
CONSTANTS Vals <- ModelVals N = 2 Gens = 3 Modulo = 2
INVARIANTS BsfIsBest RowsOnSchedule RowsNeverWorsen
PROPERTIES NeverWorsens
