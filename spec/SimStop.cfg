SPECIFICATION Spec
CONSTANTS
 MaxGen = 25
 Dwells = {0, 1, 3, 5}
 Steps = 5
INVARIANTS FutileNeedsRun Bounded
CHECK_DEADLOCK FALSE
