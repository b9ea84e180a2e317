SPECIFICATION Spec
CONSTANT Depth = 40
INVARIANTS InRange NeverCritical LimitedMeans Idle
CHECK_DEADLOCK FALSE
