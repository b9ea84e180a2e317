SPECIFICATION Spec
CONSTANTS Depth = 4
  Refresh = FALSE
INVARIANT Accepted
CHECK_DEADLOCK FALSE
