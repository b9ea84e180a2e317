SPECIFICATION Spec
CONSTANTS Depth = 16
          NMax = 3
INVARIANTS Accepted Disjoint Mapped
CHECK_DEADLOCK FALSE
