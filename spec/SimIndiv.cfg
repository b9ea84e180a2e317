SPECIFICATION Spec
CONSTANTS Depth = 16
  Share = FALSE
INVARIANTS Accepted Faithful
CHECK_DEADLOCK FALSE
