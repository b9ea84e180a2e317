SPECIFICATION Spec
CONSTANTS Depth = 14
INVARIANTS Accepted Same
CHECK_DEADLOCK FALSE
