INIT Init
NEXT Next
INVARIANTS Agree SliceAgree SplitAgree
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 4
  Limbs = 6
  MinsSet <- FewMins
  ExtsSet = {0, 1, 2, 4}
  StrsSet <- SomeStrs
  MaxRank = 2
