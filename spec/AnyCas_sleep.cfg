SPECIFICATION Spec
CONSTANTS
  N = 3
  Bug = "sleep"
INVARIANTS AtMostOnce Named Usable Told

CHECK_DEADLOCK FALSE
