SPECIFICATION Spec
CONSTANTS
  DimChoices <- B1
  ResultChoices <- R1
  Forms = {"dot", "trace", "diag", "todiag", "sum"}
INVARIANTS Fits Covers Needed
CHECK_DEADLOCK FALSE
