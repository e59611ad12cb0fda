CONSTANTS
    Depth = 2
SPECIFICATION Spec
INVARIANTS Told_ Delivered Reported Makes
CHECK_DEADLOCK FALSE
