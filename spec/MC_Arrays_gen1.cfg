SPECIFICATION Spec
CONSTANTS
  Type <- Type1
  DimsSet <- Dims1
  Allocs <- TwoAllocs
  Slots = {1, 2}
  Policies <- SomePolicies
  Depth = 3
  Ops <- AllOps
  Emit = 1
  Trivial = FALSE
INVARIANTS Refines NoErrors Discipline AllGone
VIEW View_
CHECK_DEADLOCK FALSE
