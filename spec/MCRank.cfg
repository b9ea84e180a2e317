SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Accepted Possible
CHECK_DEADLOCK FALSE
