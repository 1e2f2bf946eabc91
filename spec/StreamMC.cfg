SPECIFICATION Spec
CONSTANT TOP = 4
INVARIANTS Conserved InOrder
CHECK_DEADLOCK FALSE
