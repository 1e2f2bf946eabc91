SPECIFICATION MSpec
CONSTANT Bug = "nowait"
INVARIANTS GoneIsGone AllClosed NothingTaken
PROPERTIES Ends
CHECK_DEADLOCK FALSE
