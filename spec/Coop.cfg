SPECIFICATION Spec
CONSTANTS NSubs = 3 SubSize = 2 Trials = 2
INVARIANTS OwnPlace OnlyMeTouched MeanOfExactlyTrials
