CONSTANTS Writers = {1, 2}
 N = 4
INIT Init
NEXT Next
INVARIANT Once
PROPERTY Grows Kept
CHECK_DEADLOCK FALSE
