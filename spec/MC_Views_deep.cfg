SPECIFICATION Spec
CONSTANTS
  Roots <- RootsSmall
  Depth = 3
  Lo = 0
  Hi = 3
  MaxExt = 2
  Outside = FALSE
INVARIANTS Aliasing Contained Distinct
CHECK_DEADLOCK FALSE
