SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Survivors Stubs Calls0 WellFormed
CHECK_DEADLOCK FALSE
