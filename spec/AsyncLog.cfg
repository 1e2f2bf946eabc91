CONSTANTS Writers = {1, 2}
 Per = 3
 Cap = 2
 Bug = "none"
SPECIFICATION Spec
INVARIANT Kept Once Ordered
PROPERTY Written Stops
CHECK_DEADLOCK FALSE
