SPECIFICATION Spec
CONSTANTS
  Type <- Type1
  DimsSet <- DimsT
  Allocs <- TwoAllocs
  Slots = {1, 2}
  Policies <- TrivialPolicies
  Depth = 3
  Ops <- TrivialOps
  Emit = 0
  Trivial = TRUE
INVARIANTS Refines NoErrors Discipline AllGone
VIEW View_
CHECK_DEADLOCK FALSE
