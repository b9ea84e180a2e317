SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS Accepted Same
CHECK_DEADLOCK FALSE
