CONSTANTS
    Threads = 2
    Rounds = 2
SPECIFICATION Spec
INVARIANTS Exactly Quiet Muted
CHECK_DEADLOCK FALSE
