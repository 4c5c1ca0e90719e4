SPECIFICATION Spec
INVARIANTS Totals Textbook Operands AtOnce
CONSTANTS
 Menu <- AllMenu
 MinsOf = {1}
 ExtsOf = {0, 1, 2}
 Layouts = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
