SPECIFICATION GenSpec
CONSTANTS
    Np = 4
    Par = 3
    MaxBad = 3
    Abortable = TRUE
INVARIANTS InFlight NeverTooMany FullIfSuccess Nothing
CHECK_DEADLOCK FALSE
