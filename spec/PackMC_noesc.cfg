SPECIFICATION Spec
CONSTANTS ESC = FALSE
INVARIANTS Exact
CHECK_DEADLOCK FALSE
