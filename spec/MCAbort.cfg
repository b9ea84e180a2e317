SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Once NoneWaiting IgnoredIsSilent
CHECK_DEADLOCK FALSE
