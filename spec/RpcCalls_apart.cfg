SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  Bug = "apart"
INVARIANTS AtMostOnce Found NoneWaits
CHECK_DEADLOCK FALSE
