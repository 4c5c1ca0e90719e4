INIT Init
NEXT NoSteps
CONSTANTS
  Ranks = {2}
  MaxExtent = 3
  SrcStrides <- S2gen
  DstStrides <- D2gen
  SrcMins <- M2
  Moves = FALSE
  MaxSize = 6
INVARIANTS EmitPlan
CHECK_DEADLOCK FALSE
