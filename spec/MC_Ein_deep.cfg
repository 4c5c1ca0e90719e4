SPECIFICATION Spec
INVARIANTS Totals Textbook Operands AtOnce
CONSTANTS
 Menu = {"matmul", "matmulr", "transpose", "outer", "dot", "max", "prod", "diag", "fn"}
 MinsOf <- MNeg
 ExtsOf = {0, 1, 3}
 Layouts = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
