SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  Bug = "noclear"
INVARIANTS AtMostOnce Found NoneWaits
CHECK_DEADLOCK FALSE
