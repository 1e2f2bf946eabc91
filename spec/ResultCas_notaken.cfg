SPECIFICATION Spec
CONSTANTS
  Ops = 3
  Bug = "notaken"
INVARIANTS NotUsedAfterFree FreedOnce ResumedOnce SawOutcome Expected NotForgotten Left FreedAtEnd

CHECK_DEADLOCK FALSE
