SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Succeeds
CHECK_DEADLOCK FALSE
