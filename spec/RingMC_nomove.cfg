SPECIFICATION Spec
CONSTANTS MOVE = FALSE CAP = 2 TOP = 11 DYN = TRUE
INVARIANTS Refines InOrder
CHECK_DEADLOCK FALSE
