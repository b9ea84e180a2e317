SPECIFICATION Spec
CONSTANTS
 MaxGen = 8
 Dwells = {0, 1, 2}
 Steps = 2
INVARIANTS FutileNeedsRun Bounded
CHECK_DEADLOCK FALSE
