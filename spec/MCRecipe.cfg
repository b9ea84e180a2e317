SPECIFICATION Spec
CONSTANTS Firsts = {0, 2, 3}
          Seconds = {1, 4}
          Loose = FALSE
          Clip = FALSE
          Repeat = FALSE
INVARIANTS Exact Last Waits Within
CHECK_DEADLOCK FALSE
