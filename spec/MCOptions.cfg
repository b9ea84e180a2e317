SPECIFICATION Spec
CONSTANTS Depth = 3
          Items = 3
INVARIANTS Fixed NeverWrong Defaults
CHECK_DEADLOCK FALSE
