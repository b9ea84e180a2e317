SPECIFICATION Spec
CONSTANTS Depth = 14
          NMax = 5
          Values = {1,2,3,5}
          NoFitness = FALSE
          NoSpread = FALSE
INVARIANTS Accepted Bounded Twins Some
CHECK_DEADLOCK FALSE
