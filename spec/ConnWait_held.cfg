SPECIFICATION Spec
CONSTANTS
  Users = {"u1", "u2", "u3"}
  Bug = "held"
INVARIANT NotMissed
CHECK_DEADLOCK FALSE
