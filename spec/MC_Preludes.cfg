SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Complete0 NoneIfEqual Sound OneName WellFormed
CHECK_DEADLOCK FALSE
