CONSTANTS Writers = {1, 2}
 Per = 3
 Cap = 2
 Bug = "nodrain"
SPECIFICATION Spec
INVARIANT Kept Once Ordered

CHECK_DEADLOCK FALSE
