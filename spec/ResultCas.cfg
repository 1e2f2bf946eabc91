SPECIFICATION Spec
CONSTANTS
  Ops = 3
  Bug = "none"
INVARIANTS NotUsedAfterFree FreedOnce ResumedOnce SawOutcome Expected NotForgotten Left FreedAtEnd
PROPERTIES Ends
CHECK_DEADLOCK FALSE
