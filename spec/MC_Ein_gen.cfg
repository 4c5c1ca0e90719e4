INIT Init
NEXT NoSteps
INVARIANT EmitPlan
CONSTANTS
 Menu = {"matmul"}
 MinsOf <- MNeg
 ExtsOf = {0, 1, 2, 3}
 Layouts = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
