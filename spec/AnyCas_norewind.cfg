SPECIFICATION Spec
CONSTANTS
  N = 3
  Bug = "norewind"
INVARIANTS AtMostOnce Named Usable Told

CHECK_DEADLOCK FALSE
