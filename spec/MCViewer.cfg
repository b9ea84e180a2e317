SPECIFICATION Spec
CONSTANTS Depth = 6
  Blind = FALSE
  Eager = FALSE
INVARIANTS Accepted OneViewer
CHECK_DEADLOCK FALSE
