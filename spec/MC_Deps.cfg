SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted OnlyRequested Reached Filtered NothingElse WellFormed
CHECK_DEADLOCK FALSE
