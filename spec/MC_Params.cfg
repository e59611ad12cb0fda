SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Functions Methods WellFormed
CHECK_DEADLOCK FALSE
