SPECIFICATION Spec
CONSTANTS Depth = 6
  Late = FALSE
INVARIANT Accepted
CHECK_DEADLOCK FALSE
