CONSTANTS
  Rank = 3
  Exts_ = {0, 1, 2, 3}
  StridesA <- MCStridesA
  StridesB <- OneStride
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT SameVisits
