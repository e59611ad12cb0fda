SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Told_ ExactlyOneCall
CHECK_DEADLOCK FALSE
