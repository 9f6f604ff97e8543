SPECIFICATION Spec
INVARIANTS Ends Injective Antisymmetric
CHECK_DEADLOCK FALSE
