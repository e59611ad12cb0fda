SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted Carried Lines Undocumented Off WellFormed
CHECK_DEADLOCK FALSE
