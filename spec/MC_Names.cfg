SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Unchanged Distinct WellFormed
CHECK_DEADLOCK FALSE
