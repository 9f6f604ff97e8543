SPECIFICATION Spec
CONSTANT MaxLines = 3
INVARIANTS Honest Unsuccessful
PROPERTY Ends
CHECK_DEADLOCK FALSE
