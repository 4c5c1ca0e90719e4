CONSTANTS
  MaxRank = 4
  MaxExt = 5
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Refines StopsTogether Bijective SkipsRight
