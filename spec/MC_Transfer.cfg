SPECIFICATION Spec
CONSTANTS
  Ranks = {1}
  MaxExtent = 3
  SrcStrides <- S1
  DstStrides <- D1
  SrcMins <- M2
  Moves = TRUE
  MaxSize = 4
INVARIANTS Frame Transferred Compares
CHECK_DEADLOCK FALSE
