SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  Nested = 1
  Bug = "late"
INVARIANTS Account OneThread NothingLeft Final

CHECK_DEADLOCK FALSE
