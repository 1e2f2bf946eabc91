SPECIFICATION Spec
CONSTANTS
  Users = {"u1", "u2", "u3"}
  Bug = "none"
INVARIANT NotMissed
CHECK_DEADLOCK FALSE
