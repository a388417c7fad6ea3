SPECIFICATION Spec
CONSTANTS NSubs = 3 SubSize = 2 Trials = 4
INVARIANTS OwnPlace OnlyMeTouched MeanOfExactlyTrials
