SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  Bug = "none"
INVARIANTS AtMostOnce Found NoneWaits
CHECK_DEADLOCK FALSE
