SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Told_ ExactlyOneCall FindsTheSame
CHECK_DEADLOCK FALSE
