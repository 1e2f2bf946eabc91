SPECIFICATION Spec
CONSTANTS
  Users = {"u1", "u2", "u3"}
  Bug = "nolock"
INVARIANT NotMissed
CHECK_DEADLOCK FALSE
