SPECIFICATION Spec
CONSTANT Depth = 16
INVARIANTS Accepted Possible
CHECK_DEADLOCK FALSE
