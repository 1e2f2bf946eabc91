SPECIFICATION Spec
CONSTANTS
  N = 3
  Bug = "blind"
INVARIANTS AtMostOnce Named Usable Told

CHECK_DEADLOCK FALSE
