SPECIFICATION Spec
CONSTANTS RESET = FALSE CAP = 4 TOP = 9
INVARIANTS Fifo Kept
CONSTRAINT Small
CHECK_DEADLOCK FALSE
