CONSTANTS
  MaxRank = 3
  Mins_ <- MCMins
  Exts_ = {0, 1, 2, 3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS AllOnce Prefix Total OnlyInBounds FullSet Innermost
