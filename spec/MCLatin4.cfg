SPECIFICATION Spec
CONSTANTS Depth = 5
          N = 4
          SkipLast = FALSE
          Short = FALSE
INVARIANTS Accepted Covers
CHECK_DEADLOCK FALSE
