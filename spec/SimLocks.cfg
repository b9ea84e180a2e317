SPECIFICATION Spec
CONSTANTS Depth = 24
          N = 4
INVARIANTS Accepted Exclusive SomeoneHolds
CHECK_DEADLOCK FALSE
