SPECIFICATION Spec
CONSTANTS Depth = 4
          NMax = 3
          Values = {1,2,4}
          NoFitness = FALSE
          NoSpread = FALSE
INVARIANTS Accepted Bounded Twins Some
CHECK_DEADLOCK FALSE
