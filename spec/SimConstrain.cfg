SPECIFICATION Spec
CONSTANTS Depth = 12
  Late = FALSE
INVARIANT Accepted
CHECK_DEADLOCK FALSE
