SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Outcomes Modules Items References Docs WellFormed
CHECK_DEADLOCK FALSE
