SPECIFICATION Spec
CONSTANTS
  DimChoices <- B2
  ResultChoices <- R2
  Forms = {"dot", "trace", "diag", "todiag", "sum"}
INVARIANTS Fits Covers Needed
CHECK_DEADLOCK FALSE
