SPECIFICATION Spec
CONSTANT Depth = 12
INVARIANTS Once NoneWaiting IgnoredIsSilent
CHECK_DEADLOCK FALSE
