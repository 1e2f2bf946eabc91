CONSTANTS Names = {1, 2}
 Depth = 3
INIT Init
NEXT Next
INVARIANT Inv
PROPERTY Keeps
CHECK_DEADLOCK FALSE
