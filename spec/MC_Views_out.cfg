SPECIFICATION Spec
CONSTANTS
  Roots <- RootsSmall
  Depth = 2
  Lo = 0
  Hi = 2
  MaxExt = 2
  Outside = TRUE
INVARIANTS Aliasing Contained Distinct
CHECK_DEADLOCK FALSE
