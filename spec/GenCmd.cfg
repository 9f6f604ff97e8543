SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Verb OwnLast Asked ManifestWins
CHECK_DEADLOCK FALSE
