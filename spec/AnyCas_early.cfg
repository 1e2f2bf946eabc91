SPECIFICATION Spec
CONSTANTS
  N = 3
  Bug = "early"
INVARIANTS AtMostOnce Named Usable Told

CHECK_DEADLOCK FALSE
