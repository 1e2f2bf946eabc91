SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  Bug = "late"
INVARIANTS AtMostOnce Found NoneWaits
CHECK_DEADLOCK FALSE
