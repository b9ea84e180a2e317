SPECIFICATION Spec
INVARIANTS Counts Alone Mine Sizes
CHECK_DEADLOCK FALSE
