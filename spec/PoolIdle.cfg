SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  Nested = 1
  Bug = "none"
INVARIANTS Account OneThread NothingLeft Final
PROPERTIES Returns AllRun
CHECK_DEADLOCK FALSE
