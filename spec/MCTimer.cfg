SPECIFICATION Spec
CONSTANTS Depth = 8
  Live = FALSE
  Ids = {"p", "q"}
INVARIANT Accepted
CHECK_DEADLOCK FALSE
