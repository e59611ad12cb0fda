SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Complete Parameters WellFormed
CHECK_DEADLOCK FALSE
