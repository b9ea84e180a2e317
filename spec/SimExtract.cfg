SPECIFICATION Spec
CONSTANTS Depth = 10
  Refresh = FALSE
INVARIANT Accepted
CHECK_DEADLOCK FALSE
