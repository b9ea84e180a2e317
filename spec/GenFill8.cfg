SPECIFICATION GenSpec
CONSTANTS
    Np = 8
    Par = 5
    MaxBad = 6
    Abortable = FALSE
INVARIANTS InFlight NeverTooMany FullIfSuccess Nothing
CHECK_DEADLOCK FALSE
