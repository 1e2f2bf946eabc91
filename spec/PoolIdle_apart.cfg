SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  Nested = 1
  Bug = "apart"
INVARIANTS Account OneThread NothingLeft Final

CHECK_DEADLOCK FALSE
