SPECIFICATION Spec
CONSTANTS Depth = 5
          N = 3
INVARIANTS Accepted Exclusive SomeoneHolds
CHECK_DEADLOCK FALSE
