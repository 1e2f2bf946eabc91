SPECIFICATION MSpec
CONSTANT Bug = ""
INVARIANTS GoneIsGone AllClosed NothingTaken
PROPERTIES Ends
CHECK_DEADLOCK FALSE
