CONSTANTS
  Rank = 2
  Exts_ = {0, 1, 2, 3}
  StridesA <- MCStridesA
  StridesB <- MCStridesB
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT SameVisits
