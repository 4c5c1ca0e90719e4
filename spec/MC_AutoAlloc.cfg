SPECIFICATION Spec
CONSTANTS
  DefaultBase = 10
  Objs = {1, 2, 3}
  Caps = {0, 2}
  Bases = {10, 20}
  Sizes = {0, 2, 3}
  MaxBlocks = 3
  Depth = 6
  Emit = 0
INVARIANTS OneInside BusyIsInside Fits EqualExchanges EqualIsSymmetric NoOrphans
VIEW View_
CHECK_DEADLOCK FALSE
