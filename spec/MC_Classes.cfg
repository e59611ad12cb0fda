SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Convention WellFormed
CHECK_DEADLOCK FALSE
