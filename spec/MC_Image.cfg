SPECIFICATION Spec
CONSTANTS
  Roots <- SmallRoots
  Depth = 3
  Lo <- Lo1
  Hi = 2
INVARIANTS Exact Aliases Strides EmptyOnlyWhenOutside Origin Channels
CHECK_DEADLOCK FALSE
VIEW Short
