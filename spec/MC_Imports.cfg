SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted NoDangling ReExported OnlyOwn WellFormed
CHECK_DEADLOCK FALSE
