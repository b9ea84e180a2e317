SPECIFICATION Spec
CONSTANTS Depth = 16
  Live = FALSE
  Ids = {"p", "q", "r"}
INVARIANT Accepted
CHECK_DEADLOCK FALSE
