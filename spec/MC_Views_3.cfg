SPECIFICATION Spec
CONSTANTS
  Roots <- Roots3
  Depth = 2
  Lo = 0
  Hi = 2
  MaxExt = 1
  Outside = TRUE
INVARIANTS Aliasing Contained Distinct
CHECK_DEADLOCK FALSE
