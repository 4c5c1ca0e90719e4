SPECIFICATION Spec
CONSTANTS
  Type <- Type1
  DimsSet <- DimsT3
  Allocs <- TwoAllocs
  Slots = {1, 2}
  Policies <- TrivialPolicies
  Depth = 3
  Ops <- FewOps
  Emit = 0
  Trivial = TRUE
INVARIANTS Refines NoErrors Discipline AllGone
VIEW View_
CHECK_DEADLOCK FALSE
