SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS Accepted AtRest BestIsBest
CHECK_DEADLOCK FALSE
