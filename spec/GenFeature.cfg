SPECIFICATION Spec
INVARIANT Reads
CHECK_DEADLOCK FALSE
