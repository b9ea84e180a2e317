SPECIFICATION Spec
CONSTANTS Depth = 5
  Share = FALSE
INVARIANTS Accepted Faithful
CHECK_DEADLOCK FALSE
