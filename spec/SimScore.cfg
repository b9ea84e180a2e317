SPECIFICATION Spec
CONSTANT Depth = 14
INVARIANTS TypeOK FirstIsYes
CHECK_DEADLOCK FALSE
