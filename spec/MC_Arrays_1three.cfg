SPECIFICATION Spec
CONSTANTS
  Type <- Type1
  DimsSet <- Dims1
  Allocs <- TwoAllocs
  Slots = {1, 2, 3}
  Policies <- SomePolicies
  Depth = 4
  Ops <- AllOps
  Emit = 0
  Trivial = FALSE
INVARIANTS Refines NoErrors Discipline AllGone
VIEW View_
CHECK_DEADLOCK FALSE
