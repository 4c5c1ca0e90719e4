SPECIFICATION Spec
CONSTANTS
  Ranks = {2}
  MaxExtent = 2
  SrcStrides <- S2
  DstStrides <- D2
  SrcMins <- M2
  Moves = TRUE
  MaxSize = 4
INVARIANTS Frame Transferred Compares
CHECK_DEADLOCK FALSE
