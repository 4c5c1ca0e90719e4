CONSTANTS
  Ranks = {2, 3}
  Mins_ <- MCMins
  Exts_ = {0, 1, 2, 3}
  Strides_ <- GenStrides
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Emit
