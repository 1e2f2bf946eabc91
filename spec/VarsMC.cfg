CONSTANTS Slots = 2
 Limit = 8
INIT Init
NEXT Next
INVARIANT Inv
PROPERTY Stepped
CHECK_DEADLOCK FALSE
