SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted NothingDangles Switches0 Switches Stays Refers WellFormed
CHECK_DEADLOCK FALSE
