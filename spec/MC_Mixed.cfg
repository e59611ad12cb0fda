SPECIFICATION Spec
CONSTANT Depth = 350
 From0 = 0
INVARIANTS Emitted WellFormed
CHECK_DEADLOCK FALSE
