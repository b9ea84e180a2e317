SPECIFICATION Spec
CONSTANTS Depth = 14
  Blind = FALSE
  Eager = FALSE
INVARIANTS Accepted OneViewer
CHECK_DEADLOCK FALSE
