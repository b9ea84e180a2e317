SPECIFICATION Spec
CONSTANTS Depth = 3
          Fits = {1001, 1009, 1013, 1999, 2005}
          Vals = {0, 20, 50}
INVARIANTS BestLast Downwards Within More Sound
CHECK_DEADLOCK FALSE
