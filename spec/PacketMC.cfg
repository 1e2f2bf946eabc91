SPECIFICATION Spec
CONSTANTS MAXW = 3
INVARIANTS InBounds DataIsWritten ReadsMatch CanRead
CHECK_DEADLOCK FALSE
