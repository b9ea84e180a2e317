SPECIFICATION Spec
CONSTANTS Depth = 5
          NMax = 3
          Values = {1,3}
          NoFitness = FALSE
          NoSpread = FALSE
INVARIANTS Accepted Bounded Twins Some
CHECK_DEADLOCK FALSE
