SPECIFICATION Spec
CONSTANTS
  Type <- TypeP
  DimsSet <- DimsP
  Allocs <- TwoAllocs
  Slots = {1, 2}
  Policies <- SomePolicies
  Depth = 3
  Ops <- AllOps
  Emit = 1
  Trivial = FALSE
INVARIANTS Refines NoErrors Discipline AllGone
VIEW View_
CHECK_DEADLOCK FALSE
