SPECIFICATION Spec
INVARIANTS GivesBack
CHECK_DEADLOCK FALSE
