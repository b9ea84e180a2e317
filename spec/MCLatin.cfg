SPECIFICATION Spec
CONSTANTS Depth = 7
          N = 3
          SkipLast = FALSE
          Short = FALSE
INVARIANTS Accepted Covers
CHECK_DEADLOCK FALSE
