SPECIFICATION Spec
INVARIANTS Stable Keeps Closed Restores
CHECK_DEADLOCK FALSE
