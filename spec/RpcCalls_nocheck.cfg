SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  Bug = "nocheck"
INVARIANTS AtMostOnce Found NoneWaits
CHECK_DEADLOCK FALSE
