SPECIFICATION Spec
CONSTANTS ESC = TRUE
INVARIANTS Exact
CHECK_DEADLOCK FALSE
