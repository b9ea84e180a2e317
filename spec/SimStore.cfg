SPECIFICATION Spec
CONSTANTS Depth = 12
  Refer = FALSE
INVARIANT Accepted
CHECK_DEADLOCK FALSE
