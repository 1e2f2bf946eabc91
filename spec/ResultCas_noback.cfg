SPECIFICATION Spec
CONSTANTS
  Ops = 3
  Bug = "noback"
INVARIANTS NotUsedAfterFree FreedOnce ResumedOnce SawOutcome Expected NotForgotten Left FreedAtEnd

CHECK_DEADLOCK FALSE
