SPECIFICATION Spec
CONSTANTS N = 6 MVals = {0,1}
INVARIANTS SameAsSerial NothingTwice
PROPERTY Terminates
