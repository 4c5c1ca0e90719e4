INIT Init
NEXT NoSteps
CONSTANTS
  DimChoices <- B1
  ResultChoices <- R1
  Forms = {"dot", "trace", "diag", "todiag", "sum"}
INVARIANTS EmitPlan
CHECK_DEADLOCK FALSE
