SPECIFICATION MSpec
CONSTANT Bug = "keep"
INVARIANTS ListedAreUp UpAreListed ConsoleLives LastWins
PROPERTIES Replaced Answered
CHECK_DEADLOCK FALSE
CONSTANT Ops = 4
