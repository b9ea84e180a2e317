SPECIFICATION Spec
CONSTANTS Widths = {1, 2, 10, 19, 20, 40, 60, 100, 110, 997}
          Lows = {0, 7, 95, 1000}
INVARIANTS Mirror Never Monotone Ends
CHECK_DEADLOCK FALSE
