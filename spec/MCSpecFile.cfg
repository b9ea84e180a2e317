SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS NoneBelow InRegion
CHECK_DEADLOCK FALSE
