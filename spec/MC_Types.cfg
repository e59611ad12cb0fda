SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Agree Table WellFormed
CHECK_DEADLOCK FALSE
