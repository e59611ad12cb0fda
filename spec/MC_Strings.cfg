SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Always
CHECK_DEADLOCK FALSE
