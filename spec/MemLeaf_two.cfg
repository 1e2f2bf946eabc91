CONSTANTS Threads = {1, 2, 3}
 Size = 3
 Per = 3
 Bug = "two"
SPECIFICATION Spec
INVARIANT Mine
CHECK_DEADLOCK FALSE
