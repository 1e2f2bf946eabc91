SPECIFICATION Spec
CONSTANTS RESET = TRUE CAP = 4 TOP = 9
INVARIANTS Fifo Kept
CONSTRAINT Small
CHECK_DEADLOCK FALSE
