SPECIFICATION Spec
CONSTANTS N = 5
          Vals = {0, 1, 2, 4}
          Thirds = {0, 2, 3}
CHECK_DEADLOCK FALSE
