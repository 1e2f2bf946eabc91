SPECIFICATION Spec
CONSTANT NC = 4
INVARIANTS Disjoint Closed BoundedLoop
PROPERTY Fifo
CHECK_DEADLOCK FALSE
