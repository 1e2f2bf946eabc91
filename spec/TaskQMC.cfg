CONSTANTS Threads = {1, 2}
 N = 4
INIT Init
NEXT Next
INVARIANT Fifo AllRun
CHECK_DEADLOCK FALSE
