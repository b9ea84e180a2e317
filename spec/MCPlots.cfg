SPECIFICATION Spec
CONSTANTS N = 3
          Vals = {0, 1, 3}
          Thirds = {0, 2}
INVARIANTS AtMostOne Total Transitive OneOf Sign Perfect Once
CHECK_DEADLOCK FALSE
