CONSTANTS
  Ranks = {1, 2, 3}
  Mins_ <- MCMins
  Exts_ = {0, 1, 2, 3}
  Strides_ <- MCStrides
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS
  ResolveTotal ResolveKeeps ResolveIdempotent ResolveInjective ResolveCompact ResolveSmallest
  NestedIsInjective FlatBounds FirstIsBase SizeCounts RangeIsExact OrderIsBijection InnermostFirst
