SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  Nested = 1
  Bug = "norelease"
INVARIANTS Account OneThread NothingLeft Final

CHECK_DEADLOCK FALSE
