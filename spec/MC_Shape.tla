------------------------------ MODULE MC_Shape ------------------------------
EXTENDS ShapeMachine
MCStrides == {-2, 0, 1, 2, 3, 4, 6}
MCMins == {0}
WideStrides == {-6, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 9, 12}
WideMins == {-1, 0, 2}
GenStrides == {-2, 1, 2, 3, 4, 6, 8}
=============================================================================
