SPECIFICATION Spec
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
