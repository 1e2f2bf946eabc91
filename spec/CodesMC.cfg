CONSTANTS Bytes = {0, 1, 63, 128, 255}
 Longest = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
