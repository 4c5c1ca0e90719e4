INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 3
  Limbs = 9
  Limit = 30
