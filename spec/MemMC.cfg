CONSTANTS Threads = {1, 2}
 Leaves = {1, 2}
 N = 3
 Size = 64
 Max = 2
INIT Init
NEXT Next
INVARIANT Apart
PROPERTY NotRefused
CHECK_DEADLOCK FALSE
