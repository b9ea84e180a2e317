SPECIFICATION Spec
CONSTANTS
    Np = 4
    Par = 3
    MaxBad = 3
    Abortable = TRUE
INVARIANTS InFlight Busy NeverTooMany FullIfSuccess Nothing
PROPERTY Finishes
CHECK_DEADLOCK TRUE
