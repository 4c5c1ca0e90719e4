SPECIFICATION Spec
CONSTANTS
  DefaultBase = 10
  Slots = {1, 2, 3}
  Cap = 2
  Sizes = {0, 2, 3}
  Depth = 5
  Sloppy = FALSE
INVARIANTS Values OwnReleases NoSharing NoneLost BusyRight
CHECK_DEADLOCK FALSE
