SPECIFICATION Spec
INVARIANTS SomeOutcome LoserHasNone RatioAgreesWithDigit ManyIsNine Monotone
CHECK_DEADLOCK FALSE
