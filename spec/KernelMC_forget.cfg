SPECIFICATION MSpec
CONSTANT Bug = "forget"
INVARIANTS GoneIsGone AllClosed NothingTaken
PROPERTIES Ends
CHECK_DEADLOCK FALSE
