SPECIFICATION Spec
CONSTANTS
  Roots <- OneRoot
  Depth = 2
  Lo <- Lo1
  Hi = 2
INVARIANTS EmitPlan
CHECK_DEADLOCK FALSE
