CONSTANTS
    Depth = 1
SPECIFICATION Spec
INVARIANTS Emitted Muted Untouched Restored
CHECK_DEADLOCK FALSE
