SPECIFICATION Spec
CONSTANT Depth = 22
INVARIANTS Accepted AtRest BestIsBest
CHECK_DEADLOCK FALSE
