INIT Init
NEXT Next
INVARIANTS Agree SliceAgree SplitAgree
CHECK_DEADLOCK FALSE
CONSTANTS
  Base = 4
  Limbs = 6
  MinsSet <- SomeMins
  ExtsSet = {0, 1, 2, 3, 5}
  StrsSet <- SomeStrs
  MaxRank = 2
