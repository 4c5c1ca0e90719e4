CONSTANTS
  Ranks = {1, 2}
  Mins_ <- WideMins
  Exts_ = {0, 1, 2, 3, 4, 5}
  Strides_ <- WideStrides
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS
  ResolveTotal ResolveKeeps ResolveIdempotent ResolveInjective ResolveCompact ResolveSmallest
  NestedIsInjective FlatBounds FirstIsBase SizeCounts RangeIsExact OrderIsBijection InnermostFirst
