SPECIFICATION Spec
CONSTANTS
  Ranks = {2}
  MaxExtent = 2
  Strides <- S2
  NewStrides <- N2
  Mins0 <- Z0
  Offs <- O2
  Vals <- M1
  Depth = 2
INVARIANTS Safe Needed Reads
CHECK_DEADLOCK FALSE
