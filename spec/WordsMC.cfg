CONSTANTS Chars = {34, 47, 92, 97}
 Max = 3
 MaskMax = 2
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
