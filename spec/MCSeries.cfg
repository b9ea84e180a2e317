SPECIFICATION Spec
CONSTANTS N = 4
          Times = {0, 5}
INVARIANTS Onwards FromZero AllRows NotMore
CHECK_DEADLOCK FALSE
