SPECIFICATION Spec
CONSTANTS
  Ranks = {1}
  MaxExtent = 3
  Strides <- S1
  NewStrides <- N1
  Mins0 <- Z0
  Offs <- O1
  Vals <- V1
  Depth = 2
INVARIANTS Safe Needed Reads
CHECK_DEADLOCK FALSE
