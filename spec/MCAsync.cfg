SPECIFICATION Spec
CONSTANTS
    Np = 5
    Gens = 1
    Abortable = TRUE
INVARIANTS Exclusive Fair SequentialReads DecidedBeforeRead NoLocksLeft NoDeadlock NoNeedlessWait
PROPERTY Terminates
CHECK_DEADLOCK TRUE
