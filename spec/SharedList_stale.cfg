SPECIFICATION Spec
CONSTANTS
  Awaiters = {1, 2, 3}
  Bug = "stale"
INVARIANTS SameForAll NotUsedAfterFree
PROPERTIES AllGoOn
CHECK_DEADLOCK FALSE
