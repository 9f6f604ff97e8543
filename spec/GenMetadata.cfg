SPECIFICATION Spec
INVARIANT Classes
CHECK_DEADLOCK FALSE
