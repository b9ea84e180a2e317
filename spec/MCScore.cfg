SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS TypeOK FirstIsYes
CHECK_DEADLOCK FALSE
