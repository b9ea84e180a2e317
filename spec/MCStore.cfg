SPECIFICATION Spec
CONSTANTS Depth = 6
  Refer = FALSE
INVARIANT Accepted
CHECK_DEADLOCK FALSE
