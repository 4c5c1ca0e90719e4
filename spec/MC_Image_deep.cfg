SPECIFICATION Spec
CONSTANTS
  Roots <- SmallRoots
  Depth = 4
  Lo <- Lo2
  Hi = 4
INVARIANTS Exact Aliases Strides EmptyOnlyWhenOutside Origin Channels
CHECK_DEADLOCK FALSE
VIEW Short
