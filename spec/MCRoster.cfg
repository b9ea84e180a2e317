SPECIFICATION Spec
CONSTANTS Depth = 4
          NMax = 3
INVARIANTS Accepted Disjoint Mapped
CHECK_DEADLOCK FALSE
