SPECIFICATION MSpec
CONSTANT Bug = ""
INVARIANTS ListedAreUp UpAreListed ConsoleLives LastWins
PROPERTIES Replaced Answered
CHECK_DEADLOCK FALSE
CONSTANT Ops = 4
