SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Told_ ReadsLastWrite
CHECK_DEADLOCK FALSE
