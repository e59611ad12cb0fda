SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Emitted NothingFiltered AllKept MembersKept ByOrigin WellFormed
CHECK_DEADLOCK FALSE
