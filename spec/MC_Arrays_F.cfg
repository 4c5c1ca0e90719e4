SPECIFICATION Spec
CONSTANTS
  Type <- TypeF
  DimsSet <- DimsF
  Allocs <- TwoAllocs
  Slots = {1, 2}
  Policies <- AllPolicies
  Depth = 4
  Ops <- AllOps
  Emit = 0
  Trivial = FALSE
INVARIANTS Refines NoErrors Discipline AllGone
VIEW View_
CHECK_DEADLOCK FALSE
