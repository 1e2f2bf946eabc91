CONSTANTS Threads = {1, 2, 3}
 Size = 3
 Per = 3
 Bug = "late"
SPECIFICATION Spec
INVARIANT Mine
CHECK_DEADLOCK FALSE
