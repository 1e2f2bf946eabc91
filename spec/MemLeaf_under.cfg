CONSTANTS Threads = {1, 2, 3}
 Size = 3
 Per = 3
 Bug = "under"
SPECIFICATION Spec
INVARIANT Anew
CHECK_DEADLOCK FALSE
