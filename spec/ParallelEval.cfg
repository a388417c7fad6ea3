SPECIFICATION Spec
CONSTANTS N = 4 MVals = {0,1}
INVARIANTS SameAsSerial NothingTwice
PROPERTY Terminates
