SPECIFICATION GenSpec
CONSTANTS
    Np = 7
    Gens = 1
    Abortable = FALSE
INVARIANTS Exclusive SequentialReads DecidedBeforeRead
CHECK_DEADLOCK FALSE
