SPECIFICATION Spec
CONSTANT Depth = 14
INVARIANTS NoneBelow InRegion
CHECK_DEADLOCK FALSE
