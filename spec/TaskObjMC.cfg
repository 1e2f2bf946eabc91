CONSTANTS N = 4
 Plain = {3}
INIT Init
NEXT Next
INVARIANT OneHolder AtMostOnce Released NotAfter
CHECK_DEADLOCK FALSE
