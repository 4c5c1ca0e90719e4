SPECIFICATION Spec
CONSTANTS
  Type <- TypeP
  DimsSet <- DimsP
  Allocs <- TwoAllocs
  Slots = {1, 2}
  Policies <- OnePolicy
  Depth = 4
  Ops <- AllOps
  Emit = 0
  Trivial = FALSE
INVARIANTS Refines NoErrors Discipline AllGone
VIEW View_
CHECK_DEADLOCK FALSE
