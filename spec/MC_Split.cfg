CONSTANTS
  Mins_ <- MCMins
  MaxExt = 17
  MaxInner = 9
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS NothingElse CoversAll EmptyHasNone CountRight Increasing FormulaAgrees FullSized OverlapOnlyLast
