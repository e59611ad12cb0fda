SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Function0
PROPERTY Untouched
CHECK_DEADLOCK FALSE
