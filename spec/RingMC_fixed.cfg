SPECIFICATION Spec
CONSTANTS MOVE = TRUE CAP = 2 TOP = 11 DYN = FALSE
INVARIANTS Refines InOrder
CHECK_DEADLOCK FALSE
