CONSTANTS Threads = {1, 2, 3}
 Size = 3
 Per = 3
 Bug = "none"
SPECIFICATION Spec
INVARIANT Mine Anew
CHECK_DEADLOCK FALSE
