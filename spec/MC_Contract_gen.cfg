INIT Init
NEXT NoSteps
CONSTANTS
  Ranks = {1, 2}
  MaxExtent = 2
  Strides <- S2
  NewStrides <- N2
  Mins0 <- Z0
  Offs <- O1
  Vals <- M1
  Depth = 0
INVARIANTS EmitPlan
CHECK_DEADLOCK FALSE
