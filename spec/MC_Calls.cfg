SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Told_ ExactlyOneCall ArgumentsArrive
CHECK_DEADLOCK FALSE
