SPECIFICATION Spec
CONSTANTS
  N = 3
  Bug = "none"
INVARIANTS AtMostOnce Named Usable Told
PROPERTIES Goes
CHECK_DEADLOCK FALSE
