SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Told_ ExactlyOneCall WorksOnceEmbedded
CHECK_DEADLOCK FALSE
