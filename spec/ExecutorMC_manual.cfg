SPECIFICATION Spec
CONSTANTS KIND = "manual"
 N = 2
 NT = 3
INVARIANTS Capacity OneAtATime OneThread NeverOnClient QuietWhenDown LateNeverRuns Order
PROPERTIES OnceOnly NotRevived InlineSync
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
