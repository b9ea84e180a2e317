SPECIFICATION Spec
CONSTANT Depth = 9
INVARIANTS InRange NeverCritical LimitedMeans Idle
CHECK_DEADLOCK FALSE
